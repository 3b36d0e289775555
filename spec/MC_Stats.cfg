SPECIFICATION Spec
CONSTANTS
  Samples <- V3
  Others <- V2
  MaxItems = 3
  MaxTwo = 3
  Sizes <- SizesQ
INVARIANTS DescLaws SpreadLaws TurbLaws TestLaws
CHECK_DEADLOCK FALSE
