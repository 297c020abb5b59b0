SPECIFICATION Spec
CONSTANTS
  MinN = 3
  MaxN = 7
INVARIANTS OneRoot Partition Depth Sums
CHECK_DEADLOCK FALSE
