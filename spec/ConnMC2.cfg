SPECIFICATION MCSpec
CONSTANTS Slots = {0, 1, 2} Ends = {0, 1, 2, 3} MaxBytes = 2 EmitEdges = FALSE
 Sim = FALSE Depth = 0
VIEW MCView
INVARIANTS InOrder OneHolder Arrives OpenEnds
CHECK_DEADLOCK FALSE
