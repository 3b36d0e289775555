SPECIFICATION Spec
CONSTANTS
  Heights <- HeightsQ
  MaxL = 4
  Coords <- CoordsQ
  MaxP = 2
  Grid = 4
  MinKde = 2
INVARIANTS CutLaws SlopeLaws HistLaws SmoothLaws KdeLaws DensLaws
CHECK_DEADLOCK FALSE
