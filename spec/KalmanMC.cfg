SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxTaken = 2
  MaxSpread = 1
INVARIANTS InformationForm Symmetric Positive TwoAtOnce
PROPERTIES MeasuringInforms
