SPECIFICATION Spec
CONSTANTS
  Samples <- B3v
  MaxN = 5
INVARIANTS Basis Judged
CHECK_DEADLOCK FALSE
