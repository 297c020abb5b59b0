SPECIFICATION Spec
CONSTANTS
  N = 7
  MaxAgg = 2
  FoldN = 1
  MaxDb = 0
  Deep = FALSE
INVARIANTS MetadataTrue Causal ColumnsDistinct BinsTile
CHECK_DEADLOCK FALSE
