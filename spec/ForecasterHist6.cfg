SPECIFICATION Spec
CONSTANTS
  Data = {"A", "B"}
  Preds = {"pred", "predq"}
  Others = {"copy"}
  MaxLen = 6
INVARIANTS Parity LastFit
PROPERTIES PredictPure
CHECK_DEADLOCK FALSE
