SPECIFICATION Spec
CONSTANTS
  Lim = 1
  Grid = 3
INVARIANTS Shape Inverse Causal
CHECK_DEADLOCK FALSE
