SPECIFICATION MCSpec
CONSTANTS Ids = {1, 2, 3}  Use = {"slist", "tree", "msg"}  MaxLen = 2  Sour = FALSE  Forging = TRUE  EmitEdges = FALSE  Depth = 0
VIEW View
INVARIANTS OneOwner OwnersLive NoOrphans BadLive
CHECK_DEADLOCK FALSE
