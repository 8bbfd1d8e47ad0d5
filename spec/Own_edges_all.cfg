SPECIFICATION MCSpec
CONSTANTS Ids = {1, 2, 3}  Use = {"slist", "list", "queue", "tree", "msg"}  MaxLen = 2  Sour = TRUE  Forging = FALSE  EmitEdges = TRUE  Depth = 0
VIEW View
INVARIANTS OneOwner OwnersLive NoOrphans BadLive
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
