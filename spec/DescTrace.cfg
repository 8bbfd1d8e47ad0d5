SPECIFICATION Spec
CONSTANT Setsize = 1024
