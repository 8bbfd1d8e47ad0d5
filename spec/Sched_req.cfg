SPECIFICATION MCSpec
CONSTANTS NFib = 2
 Feat = {"run", "add", "exit", "mgmt", "req", "all", "disc1", "blk"}
 MaxMb = 0 MaxCd = 0 MaxMsg = 0 MaxDs = 1 Sim = FALSE Depth = 0 Fault = FALSE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
ACTION_CONSTRAINT Emit
