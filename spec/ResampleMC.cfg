SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 3
INVARIANTS IsSample Ordered Expected
