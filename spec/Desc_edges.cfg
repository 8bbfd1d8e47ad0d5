SPECIFICATION Spec
CONSTANTS MaxFd = 5 MaxVars = 2 EmitEdges = TRUE
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
