SPECIFICATION MCSpec
CONSTANTS Slots = {0, 1, 2} Ends = {0, 1} MaxBytes = 1 EmitEdges = TRUE
 Sim = FALSE Depth = 0
VIEW View
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
