SPECIFICATION Spec
CONSTANTS N = 8  EmitEdges = TRUE
VIEW View
INVARIANTS Valid Balanced Ordered
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
