SPECIFICATION Spec
CONSTANTS
  Heights <- More
  Knots = 4
  Budget = 4
INVARIANTS RootJudged Encloses MinJudged
CHECK_DEADLOCK FALSE
