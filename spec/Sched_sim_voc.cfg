SPECIFICATION MCSpec
CONSTANTS NFib = 40
 Feat = {"voc2", "voc", "run", "add2", "all", "yield", "sta", "mgmt"}
 MaxMb = 0 MaxCd = 3 MaxMsg = 0 MaxDs = 0 Sim = TRUE Depth = 600 Fault = FALSE
CHECK_DEADLOCK FALSE
CONSTRAINT EmitSim
