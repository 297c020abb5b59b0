SPECIFICATION Spec
CONSTANTS
  Cats = {"a", "b", "c"}
  MaxLen = 4
INVARIANTS LastFit
CHECK_DEADLOCK FALSE
