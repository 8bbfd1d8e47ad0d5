SPECIFICATION MCSpec
CONSTANTS Ids = {1, 2, 3}  Use = {"list", "msg"}  MaxLen = 2  Sour = FALSE  Forging = TRUE  EmitEdges = TRUE  Depth = 0
VIEW View
INVARIANTS OneOwner OwnersLive NoOrphans BadLive
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
