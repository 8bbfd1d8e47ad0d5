SPECIFICATION MCSpec
CONSTANTS Kinds = {"malloc", "bump", "user"}  EmitEdges = TRUE
VIEW View
INVARIANTS ForgedLive
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
