SPECIFICATION Spec
CONSTANTS
  Fns = 2
  Contents = 2
  Layouts = 3
  MaxLen = 3
INVARIANTS Quiet Exposed
CHECK_DEADLOCK FALSE
