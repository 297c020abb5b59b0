SPECIFICATION Spec
CONSTANTS
  Vals = {0, 3}
  MaxLen = 4
  Steps = 4
INVARIANTS Batch Silent Exact Persists Causal
CHECK_DEADLOCK FALSE
