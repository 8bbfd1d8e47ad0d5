SPECIFICATION SSpec
CONSTANTS
    MaxFed = 4
    LineSizes = {1, 2, 3, 4}
    Caps = {0, 1, 2}
    EmitEdges = TRUE
INVARIANTS Conservation PulledOk
ACTION_CONSTRAINT Emit
VIEW EdgeView
CHECK_DEADLOCK FALSE
