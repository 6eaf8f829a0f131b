SPECIFICATION Spec
CONSTANTS Knots <- Kn
          MaxDeg = 4
INVARIANTS Correct NonNeg Support Unity Cubic
CHECK_DEADLOCK FALSE
