SPECIFICATION Spec
CONSTANTS
  N = 12
  MaxK = 7
  Bits = 4
INVARIANTS SplitOk JoinOk Holds Rounding
CHECK_DEADLOCK FALSE
