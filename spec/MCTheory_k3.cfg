SPECIFICATION Spec
CONSTANTS K = 3
          Grids <- G3
          Mar = 9
INVARIANTS Unity Affine NodeRepr NonNeg Smooth C2 Deriv Extrap Natural
CHECK_DEADLOCK FALSE
