SPECIFICATION Spec
CONSTANTS
  Ops = {"fit", "predA", "predB", "predN", "on", "off", "copy"}
  MaxLen = 6
INVARIANTS StoredIff ModeOnly
PROPERTIES StoredKept
CHECK_DEADLOCK FALSE
