SPECIFICATION Spec
CONSTANTS
  Samples <- V4
  MaxN = 5
INVARIANTS Interpolates LinearLaws LastLaws FillLaws Judged
CHECK_DEADLOCK FALSE
