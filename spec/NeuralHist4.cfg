SPECIFICATION Spec
CONSTANTS
  Data = {"A", "B"}
  Preds = {"pred", "predq"}
  MaxLen = 4
INVARIANTS StateIsHistory SavedIsUsable
PROPERTIES PredictPure
CHECK_DEADLOCK FALSE
