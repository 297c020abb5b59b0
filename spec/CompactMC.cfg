SPECIFICATION Spec
CONSTANTS
  N = 7
  MaxK = 5
  Bits = 4
INVARIANTS SplitOk JoinOk Holds Rounding
CHECK_DEADLOCK FALSE
