SPECIFICATION MCSpec
CONSTANTS NFib = 5
 Feat = {"run", "yield", "add", "add2", "exit", "mgmt", "rm", "sta", "idle", "req", "all", "disc1", "blk", "rq"}
 MaxMb = 0 MaxCd = 0 MaxMsg = 0 MaxDs = 1 Sim = TRUE Depth = 60 Fault = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
CONSTRAINT EmitSim
