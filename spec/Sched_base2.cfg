SPECIFICATION MCSpec
CONSTANTS NFib = 2
 Feat = {"run", "yield", "add", "exit", "mgmt", "rm", "sta"}
 MaxMb = 0 MaxCd = 0 MaxMsg = 0 MaxDs = 0 Sim = FALSE Depth = 0 Fault = FALSE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
ACTION_CONSTRAINT Emit
