INIT Init
NEXT Next
INVARIANTS Consts Laws
CHECK_DEADLOCK FALSE
