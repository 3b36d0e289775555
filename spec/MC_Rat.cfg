INIT Init
NEXT Next
INVARIANTS Arith Order RoundingC Vec
CHECK_DEADLOCK FALSE
