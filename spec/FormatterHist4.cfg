SPECIFICATION Spec
CONSTANTS
  Ops = {"transform", "transform_dt2", "infer", "short", "permuted", "parallel", "simulate_dt2", "folds", "prune", "lims", "deepcopy", "pickle"}
  MaxLen = 4
  DtFixed = FALSE
INVARIANTS TypeOK ZoneSticky MetaLast
PROPERTIES ZoneStays
CHECK_DEADLOCK FALSE
