SPECIFICATION Spec
CONSTANTS
  Heights <- Small
  Knots = 3
  Budget = 3
INVARIANTS RootJudged Encloses MinJudged
CHECK_DEADLOCK FALSE
