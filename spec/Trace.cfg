SPECIFICATION Spec
INVARIANT InRange
CHECK_DEADLOCK FALSE
