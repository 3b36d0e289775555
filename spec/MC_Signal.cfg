SPECIFICATION Spec
CONSTANTS
  Samples <- B2v
  MaxN = 5
  Orders = {1, 2, 3}
  Points <- PointsQ
INVARIANTS WelchLaws NoiseLaws DistLaws FilterLaws FilterJudged
CHECK_DEADLOCK FALSE
