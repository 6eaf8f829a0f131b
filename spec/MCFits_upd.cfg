SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Fits = {1, 2, 3}
          Damps <- DampNone
          MaxFits = 99
          Keep = TRUE
          Depth = 10
INVARIANT Emit
CHECK_DEADLOCK FALSE
