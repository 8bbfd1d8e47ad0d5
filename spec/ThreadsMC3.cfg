SPECIFICATION Spec
CONSTANTS NT = 4 NM = 2 NC = 2 EmitEdges = FALSE
INVARIANTS Excl Busy OneCall NoLost Joined
CHECK_DEADLOCK FALSE
