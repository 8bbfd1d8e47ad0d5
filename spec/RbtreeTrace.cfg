SPECIFICATION Spec
CONSTANTS Trees = {0, 1, 2}  CheckShape = FALSE
