SPECIFICATION Spec
CONSTANTS NFib = 24 NSock = 20
