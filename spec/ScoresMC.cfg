SPECIFICATION Spec
CONSTANTS
  Lo = 0
  Hi = 1
INVARIANTS Partition Recombine Zero Symmetric Pinball Half Bins
CHECK_DEADLOCK FALSE
