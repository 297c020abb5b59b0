SPECIFICATION Spec
CONSTANTS
  Cats = {"a", "b", "c"}
  MaxLen = 3
INVARIANTS LastFit
CHECK_DEADLOCK FALSE
