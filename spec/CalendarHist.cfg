SPECIFICATION Spec
CONSTANTS
  Ops = {"zoned", "naive", "infer", "deepcopy", "pickle"}
  MaxLen = 4
  DtFixed = FALSE
INVARIANTS TypeOK ZoneSticky MetaLast
PROPERTIES ZoneStays
CHECK_DEADLOCK FALSE
