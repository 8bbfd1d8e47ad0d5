SPECIFICATION MCSpec
CONSTANTS NFib = 5
 Feat = {"run", "yield", "add", "add2", "mbc", "mbx", "snd", "snd2", "rcv", "rcv2", "exit"}
 MaxMb = 3 MaxCd = 0 MaxMsg = 6 MaxDs = 0 Sim = TRUE Depth = 60 Fault = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
CONSTRAINT EmitSim
