SPECIFICATION SSpec
CONSTANTS
    MaxFed = 4
    LineSizes = {1, 2, 3, 4}
    Caps = {0, 1, 2}
    EmitEdges = FALSE
INVARIANTS Conservation PulledOk
VIEW EdgeView
CHECK_DEADLOCK FALSE
