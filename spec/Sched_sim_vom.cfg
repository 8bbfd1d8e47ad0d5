SPECIFICATION MCSpec
CONSTANTS NFib = 12
 Feat = {"vom2", "vom3", "vom"}
 MaxMb = 70 MaxCd = 0 MaxMsg = 400 MaxDs = 0 Sim = TRUE Depth = 1000 Fault = FALSE
CHECK_DEADLOCK FALSE
CONSTRAINT EmitSim
