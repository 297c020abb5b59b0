SPECIFICATION Spec
CONSTANTS
  Ops = {"cvfull", "cvrand", "studyfull", "studyrand", "unknown"}
  MaxLen = 3
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
