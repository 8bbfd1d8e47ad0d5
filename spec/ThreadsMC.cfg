SPECIFICATION Spec
CONSTANTS NT = 3 NM = 1 NC = 1 EmitEdges = FALSE
INVARIANTS Excl Busy OneCall NoLost Joined
CHECK_DEADLOCK FALSE
