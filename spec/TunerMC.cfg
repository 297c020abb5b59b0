SPECIFICATION Spec
CONSTANTS
  N = 4
  K = 2
  NSA = 1
  Targets = {1, 2}
  NCand = 2
  Vals = {0, 5}
INVARIANTS Honest NoOtherTarget Optimal Everyone Unshared
CHECK_DEADLOCK FALSE
