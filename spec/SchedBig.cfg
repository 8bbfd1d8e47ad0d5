SPECIFICATION Spec
CONSTANT NFib = 40
