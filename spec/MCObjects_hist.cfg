SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Arrays = {1, 2}
          MaxVer = 9
          Alias = FALSE
          Keep = TRUE
          Depth = 12
          Lazy = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
