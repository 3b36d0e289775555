SPECIFICATION Spec
CONSTANTS
  Roots <- R3
  MaxZ = 2
  MaxP = 3
  Levels <- V3
  MaxY = 4
INVARIANTS Transforms Forms RootLaws AxesLaws
CHECK_DEADLOCK FALSE
