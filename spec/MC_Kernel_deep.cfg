SPECIFICATION Spec
CONSTANTS
  Heights <- HeightsD
  MaxL = 5
  Coords <- CoordsQ
  MaxP = 3
  Grid = 4
  MinKde = 3
INVARIANTS CutLaws SlopeLaws HistLaws SmoothLaws KdeLaws DensLaws
CHECK_DEADLOCK FALSE
