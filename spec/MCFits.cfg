SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Fits = {1, 5}
          Damps <- DampSet
          MaxFits = 5
          Keep = FALSE
          Depth = 0
INVARIANTS Convex Between
CHECK_DEADLOCK FALSE
