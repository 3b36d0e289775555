SPECIFICATION Spec
CONSTANTS
  Samples <- S4
  Size = 5
  Budget = 5
INVARIANTS Accepted Untouched CleanStop Rejects
CHECK_DEADLOCK FALSE
