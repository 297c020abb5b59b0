SPECIFICATION Spec
CONSTANTS
  NHours = 3
  MaxCount = 3
INVARIANTS NeverOver Exact
PROPERTIES Ends
CHECK_DEADLOCK FALSE
