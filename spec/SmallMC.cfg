SPECIFICATION TLive
CONSTANTS Ts = {0, 1} Listeners = {1, 2} EmitEdges = FALSE
INVARIANTS Remembered OneListener OncePerReg
PROPERTY Heard
CHECK_DEADLOCK FALSE
