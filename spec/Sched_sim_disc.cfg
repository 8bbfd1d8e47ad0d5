SPECIFICATION MCSpec
CONSTANTS NFib = 4
 Feat = {"run", "yield", "add", "add2", "disc", "oth", "dyl", "rq", "idle"}
 MaxMb = 0 MaxCd = 0 MaxMsg = 0 MaxDs = 5 Sim = TRUE Depth = 60 Fault = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
CONSTRAINT EmitSim
