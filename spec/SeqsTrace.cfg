SPECIFICATION Spec
CONSTANTS Qs = {0, 1, 2}
