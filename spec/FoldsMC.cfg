SPECIFICATION Spec
CONSTANTS
  N = 1
  MaxAgg = 0
  FoldN = 9
  MaxDb = 2
  Deep = FALSE
INVARIANTS NoLeak NoLeakBack CoverAll Contiguous
CHECK_DEADLOCK FALSE
