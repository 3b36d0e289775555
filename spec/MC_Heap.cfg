SPECIFICATION Spec
CONSTANTS
  Arrays = 2
  Fns = 2
  MaxLen = 3
INVARIANTS Quiet Exposed Named
CHECK_DEADLOCK FALSE
