SPECIFICATION Spec
CONSTANTS NF = 4 MaxDepth = 2 EmitEdges = FALSE
INVARIANTS OneRuns Kept
PROPERTIES Back Dead
CHECK_DEADLOCK FALSE
