SPECIFICATION MCSpec
CONSTANTS NFib = 40
 Feat = {"vom", "vom2", "vom3", "voc", "voc2", "run", "add"}
 MaxMb = 12 MaxCd = 3 MaxMsg = 400 MaxDs = 0 Sim = TRUE Depth = 640 Fault = FALSE
CHECK_DEADLOCK FALSE
CONSTRAINT EmitSim
