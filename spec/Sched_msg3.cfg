SPECIFICATION MCSpec
CONSTANTS NFib = 3
 Feat = {"run", "add", "mbc", "mbx", "snd", "rcv"}
 MaxMb = 1 MaxCd = 0 MaxMsg = 2 MaxDs = 0 Sim = FALSE Depth = 0 Fault = FALSE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
ACTION_CONSTRAINT Emit
