SPECIFICATION Spec
CONSTANTS
  Coefs <- CoefsQ
  Long = 64
  Short = 16
  LongSpots <- LongQ
  ShortSpots <- ShortQ
  MaxF = 2
INVARIANTS Restores
CHECK_DEADLOCK FALSE
