SPECIFICATION MCSpec
CONSTANTS NFib = 1
 Feat = {"run", "add", "disc", "oth", "dyl", "rq"}
 MaxMb = 0 MaxCd = 0 MaxMsg = 0 MaxDs = 2 Sim = FALSE Depth = 0 Fault = FALSE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
ACTION_CONSTRAINT Emit
