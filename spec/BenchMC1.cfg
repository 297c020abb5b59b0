SPECIFICATION Spec
CONSTANTS
  Season = 1
  Steps = 3
  Len1 = 4
  Len2 = 5
  V = {0, 1}
INVARIANTS OneSeason Exact Agree Frequencies
CHECK_DEADLOCK FALSE
