SPECIFICATION ASpec
CONSTANTS Regions = {0, 39, 40, 41, 48, 56, 57, 63, 64, 72, 73, 80, 97, 130} HdrSize = 40
 Sizes = {0, 1, 7, 8, 15, 16, 17, 31, 32, 48} EmitEdges = TRUE
VIEW View
ACTION_CONSTRAINT EmitE
CHECK_DEADLOCK FALSE
