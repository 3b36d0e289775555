SPECIFICATION Spec
CONSTANTS
  Coefs <- CoefsD
  Long = 64
  Short = 16
  LongSpots <- LongD
  ShortSpots <- ShortD
  MaxF = 2
INVARIANTS Restores
CHECK_DEADLOCK FALSE
