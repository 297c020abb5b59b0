SPECIFICATION Spec
CONSTANTS
  Data = {"A", "B"}
  Preds = {"pred", "predq"}
  Others = {"copy"}
  MaxLen = 5
INVARIANTS Parity LastFit
PROPERTIES PredictPure
CHECK_DEADLOCK FALSE
