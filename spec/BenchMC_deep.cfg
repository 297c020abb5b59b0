SPECIFICATION Spec
CONSTANTS
  Season = 3
  Steps = 5
  Len1 = 5
  Len2 = 7
  V = {0, 1}
INVARIANTS OneSeason Exact Agree Frequencies
CHECK_DEADLOCK FALSE
