SPECIFICATION Spec
CONSTANTS MaxFd = 6 MaxVars = 3 EmitEdges = FALSE
INVARIANTS NoLoss Promised
CHECK_DEADLOCK FALSE
