SPECIFICATION Spec
CONSTANTS
  Callers = 3
  MaxPre = 9
INVARIANTS Quiet Exposed Named
CHECK_DEADLOCK FALSE
