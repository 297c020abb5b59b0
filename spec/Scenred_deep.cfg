SPECIFICATION Spec
CONSTANTS
  N = 5
  T = 3
  NodeCounts = {1, 2, 3, 4}
INVARIANTS Always Final FinalTree
CHECK_DEADLOCK FALSE
