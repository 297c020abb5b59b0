SPECIFICATION Spec
CONSTANTS
  Frames = {1, 2, 3, 4}
  MaxLen = 5
  MaxFit = 2
INVARIANTS Last
CHECK_DEADLOCK FALSE
