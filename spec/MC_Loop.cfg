SPECIFICATION Spec
CONSTANTS
  Samples <- S3
  Size = 4
  Budget = 3
INVARIANTS Accepted Untouched CleanStop Rejects
CHECK_DEADLOCK FALSE
