SPECIFICATION Spec
CONSTANTS
  P1 = 2
  P2 = 3
  Horizon = 7
  Sizes = {1, 2, 4}
  Ops = {"save", "quant", "copy", "gap", "part"}
  MaxLen = 4
INVARIANTS SeasonsRight Batching
CHECK_DEADLOCK FALSE
