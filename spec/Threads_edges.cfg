SPECIFICATION Spec
CONSTANTS NT = 3 NM = 1 NC = 1 EmitEdges = TRUE
VIEW View
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
