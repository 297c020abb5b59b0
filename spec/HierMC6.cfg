SPECIFICATION Spec
CONSTANTS
  MinN = 3
  MaxN = 6
INVARIANTS OneRoot Partition Depth Sums
CHECK_DEADLOCK FALSE
