SPECIFICATION Spec
CONSTANTS
  Ops = {"cvfull", "cvrand", "studyfull", "studyrand", "unknown"}
  MaxLen = 4
INVARIANTS Fresh
CHECK_DEADLOCK FALSE
