SPECIFICATION Spec
CONSTANTS
  Samples <- V4
  Others <- V3
  MaxItems = 5
  MaxTwo = 4
  Sizes <- SizesD
INVARIANTS DescLaws SpreadLaws TurbLaws TestLaws
CHECK_DEADLOCK FALSE
