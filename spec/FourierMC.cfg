SPECIFICATION Spec
CONSTANTS
  M = 3
  N = 2
  Values = {0, 5}
  MaxLen = 8
  Kinds = {"es", "fk"}
INVARIANTS Window Phase Continuity Periodic Decay
CHECK_DEADLOCK FALSE
