SPECIFICATION MCSpec
CONSTANTS NFib = 5
 Feat = {"run", "yield", "add", "add2", "cnc", "cnx", "cnw", "cnw2", "cn1", "cna", "exit"}
 MaxMb = 0 MaxCd = 3 MaxMsg = 0 MaxDs = 0 Sim = TRUE Depth = 60 Fault = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS OneResume OnePlace Owned Mail UniqueIds
CONSTRAINT EmitSim
