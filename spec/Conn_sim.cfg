SPECIFICATION MCSpec
CONSTANTS Slots = {0, 1, 2, 3, 4, 5} Ends = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15}
 MaxBytes = 9 EmitEdges = FALSE Sim = TRUE Depth = 40
INVARIANTS InOrder OneHolder Arrives OpenEnds EmitSim
CHECK_DEADLOCK FALSE
