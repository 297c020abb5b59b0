SPECIFICATION Spec
CONSTANTS
  Lim = 2
  Grid = 3
INVARIANTS Shape Inverse Causal
CHECK_DEADLOCK FALSE
