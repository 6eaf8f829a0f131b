SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Arrays = {1, 2}
          MaxVer = 4
          Alias = FALSE
          Keep = TRUE
          Depth = 4
          Lazy = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
