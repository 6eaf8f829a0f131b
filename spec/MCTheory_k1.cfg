SPECIFICATION Spec
CONSTANTS K = 1
          Grids <- G1
          Mar = 9
INVARIANTS Unity Affine NodeRepr NonNeg Smooth C2 Deriv Extrap Natural
CHECK_DEADLOCK FALSE
