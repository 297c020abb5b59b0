SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 4
INVARIANTS IsSample Ordered Expected
