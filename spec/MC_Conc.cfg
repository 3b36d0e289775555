SPECIFICATION Spec
CONSTANTS
  Callers = 2
  MaxPre = 9
INVARIANTS Quiet Exposed Named
CHECK_DEADLOCK FALSE
