SPECIFICATION RbSpec
CONSTANTS Trees = {0, 1}  Keys = {1, 2}  Ids = {1, 2, 3, 4}
INVARIANTS SingleOwner OwnersAlive
CHECK_DEADLOCK FALSE
