SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 3}
  MaxLen = 5
  Steps = 5
INVARIANTS Batch Silent Exact Persists Causal
CHECK_DEADLOCK FALSE
