SPECIFICATION Spec
CONSTANTS
  N = 1
  MaxAgg = 0
  FoldN = 18
  MaxDb = 4
  Deep = FALSE
INVARIANTS NoLeak NoLeakBack CoverAll Contiguous
CHECK_DEADLOCK FALSE
