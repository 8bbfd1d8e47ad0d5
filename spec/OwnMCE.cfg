SPECIFICATION MCSpec
CONSTANTS Ids = {1, 2, 3, 4}  Use = {"slist", "tree"}  MaxLen = 2  Sour = TRUE  Forging = FALSE  EmitEdges = FALSE  Depth = 0
VIEW View
INVARIANTS OneOwner OwnersLive NoOrphans BadLive
CHECK_DEADLOCK FALSE
