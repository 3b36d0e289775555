SPECIFICATION Spec
CONSTANTS
  Samples <- V3
  MaxN = 4
INVARIANTS Bounded Laws KalmanLaws Judged
CHECK_DEADLOCK FALSE
