SPECIFICATION Spec
CONSTANTS
  Samples <- V3
  Others <- V2
  MaxOne = 4
  MaxTwo = 3
INVARIANTS AccelLaws PhaseLaws CorrLaws PollLaws PreLaws Judged
CHECK_DEADLOCK FALSE
