SPECIFICATION TSpec
CONSTANTS Ts = {0, 1} Listeners = {1, 2} EmitEdges = TRUE
VIEW View
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
