SPECIFICATION Spec
CONSTANTS
  N = 10
  MaxAgg = 3
  FoldN = 1
  MaxDb = 0
  Deep = TRUE
INVARIANTS MetadataTrue Causal ColumnsDistinct BinsTile
CHECK_DEADLOCK FALSE
