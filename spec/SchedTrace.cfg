SPECIFICATION Spec
CONSTANT NFib = 7
