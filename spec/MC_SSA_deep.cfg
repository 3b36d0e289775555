SPECIFICATION Spec
CONSTANTS
  Samples <- V4
  MaxN = 7
INVARIANTS Basis Judged
CHECK_DEADLOCK FALSE
