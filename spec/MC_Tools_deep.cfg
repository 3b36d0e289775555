SPECIFICATION Spec
CONSTANTS
  Roots <- R4
  MaxZ = 3
  MaxP = 4
  Levels <- V4
  MaxY = 6
INVARIANTS Transforms Forms RootLaws AxesLaws
CHECK_DEADLOCK FALSE
