SPECIFICATION Spec
CONSTANTS
  Samples <- V3
  MaxN = 7
  Orders = {1, 2, 3, 4, 5, 6, 7, 8}
  Points <- PointsD
INVARIANTS WelchLaws NoiseLaws DistLaws FilterLaws FilterJudged
CHECK_DEADLOCK FALSE
