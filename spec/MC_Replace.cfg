SPECIFICATION Spec
CONSTANTS
  Samples <- V3
  MaxN = 4
INVARIANTS Interpolates LinearLaws LastLaws FillLaws Judged
CHECK_DEADLOCK FALSE
