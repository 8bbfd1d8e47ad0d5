SPECIFICATION MCSpec
CONSTANTS Qs = {0, 1}  Kind = "list"  Ids = {1, 2, 3}  MaxLen = 3  EmitEdges = TRUE
VIEW View
INVARIANTS SingleOwner OwnersAlive
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
