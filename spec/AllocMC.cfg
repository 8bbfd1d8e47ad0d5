SPECIFICATION ASpec
CONSTANTS Regions = {39, 40, 41, 72, 89, 104} HdrSize = 40
 Sizes = {0, 1, 15, 16, 17} EmitEdges = FALSE
INVARIANTS Disjoint Inside
CHECK_DEADLOCK FALSE
