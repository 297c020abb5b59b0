SPECIFICATION Spec
CONSTANTS
  Frames = {1, 2, 3}
  Ops = {"pred", "quant", "copy"}
  MaxLen = 5
  MaxFit = 2
INVARIANTS Known Kept
CHECK_DEADLOCK FALSE
