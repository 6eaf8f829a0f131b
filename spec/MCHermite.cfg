SPECIFICATION Spec
CONSTANTS Grids <- G2
          YVals <- Y1
          MVals <- M1
          Margin = 2
INVARIANTS Correct AtNodes CellEnds IsCubicPoly
CHECK_DEADLOCK FALSE
