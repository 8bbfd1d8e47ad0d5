SPECIFICATION Spec
CONSTANTS NF = 3 MaxDepth = 1 EmitEdges = FALSE
INVARIANTS OneRuns Kept
PROPERTIES Back Dead
CHECK_DEADLOCK FALSE
