SPECIFICATION Spec
CONSTANTS NFib = 5 NSock = 3
