SPECIFICATION MCSpec
CONSTANTS Ids = {1, 2, 3}  Use = {"slist", "tree", "msg"}  MaxLen = 1  Sour = FALSE  Forging = TRUE  EmitEdges = TRUE  Depth = 0
VIEW View
INVARIANTS OneOwner OwnersLive NoOrphans BadLive
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
