SPECIFICATION MCSpec
CONSTANTS Ids = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}  Use = {"slist", "list", "queue", "tree", "msg"}  MaxLen = 5  Sour = TRUE  Forging = FALSE  EmitEdges = FALSE  Depth = 61
INVARIANTS OneOwner OwnersLive NoOrphans BadLive
CONSTRAINT EmitSim
CHECK_DEADLOCK FALSE
