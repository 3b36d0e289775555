SPECIFICATION Spec
CONSTANTS
  Samples <- V4
  MaxN = 6
INVARIANTS Bounded Laws KalmanLaws Judged
CHECK_DEADLOCK FALSE
