SPECIFICATION LSpec
CONSTANTS Parts = 6
INVARIANTS NoneLeft AllThere Told
CHECK_DEADLOCK FALSE
