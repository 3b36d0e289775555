SPECIFICATION Spec
CONSTANTS
  Samples <- V4
  Others <- V3
  MaxOne = 6
  MaxTwo = 3
INVARIANTS AccelLaws PhaseLaws CorrLaws PollLaws PreLaws Judged
CHECK_DEADLOCK FALSE
