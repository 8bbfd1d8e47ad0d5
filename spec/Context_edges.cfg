SPECIFICATION Spec
CONSTANTS NF = 3 MaxDepth = 1 EmitEdges = TRUE
VIEW View
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
