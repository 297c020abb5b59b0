SPECIFICATION Spec
CONSTANTS
  N = 4
  T = 3
  NodeCounts = {1, 2, 3, 5}
INVARIANTS Always Final FinalTree
CHECK_DEADLOCK FALSE
