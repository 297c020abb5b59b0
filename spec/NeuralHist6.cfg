SPECIFICATION Spec
CONSTANTS
  Data = {"A", "B"}
  Preds = {"pred", "predq"}
  MaxLen = 6
INVARIANTS StateIsHistory SavedIsUsable
PROPERTIES PredictPure
CHECK_DEADLOCK FALSE
