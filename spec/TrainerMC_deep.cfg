SPECIFICATION Spec
CONSTANTS
  Rows = {1, 2, 3}
  Values = {0, 1}
  MaxTrials = 2
  NFolds = 2
INVARIANTS NeverSeen NoLeak OneFitPerScore Complete
CHECK_DEADLOCK FALSE
