SPECIFICATION Spec
CONSTANTS MaxFd = 5 MaxVars = 2 EmitEdges = FALSE
INVARIANTS NoLoss Promised
CHECK_DEADLOCK FALSE
