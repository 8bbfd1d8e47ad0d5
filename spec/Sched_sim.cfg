SPECIFICATION MCSpec
CONSTANTS NFib = 5
 Feat = {"run", "yield", "add", "add2", "exit", "mgmt", "rm", "sta", "disc1", "blk", "req", "all", "idle", "mbc", "mbx", "snd", "snd2", "rcv", "rcv2", "cnc", "cnx", "cnw", "cnw2", "cn1", "cna", "ux", "bad"}
 MaxMb = 3 MaxCd = 3 MaxMsg = 6 MaxDs = 1 Sim = TRUE Depth = 60 Fault = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
CONSTRAINT EmitSim
