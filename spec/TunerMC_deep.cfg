SPECIFICATION Spec
CONSTANTS
  N = 5
  K = 2
  NSA = 2
  Targets = {1, 2}
  NCand = 2
  Vals = {0, 5}
INVARIANTS Honest NoOtherTarget Optimal Everyone Unshared
CHECK_DEADLOCK FALSE
