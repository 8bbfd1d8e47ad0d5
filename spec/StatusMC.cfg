SPECIFICATION Spec
CONSTANTS
  N = 3
  Values = {0, 5, 7}
  Fields = {0, 1, 2, 127, 128, 254, 255}
INVARIANTS Same Once NoneKept OnlyMade NotLost
PROPERTY Ends
