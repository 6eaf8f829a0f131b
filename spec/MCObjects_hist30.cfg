SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Arrays = {1, 2}
          MaxVer = 20
          Alias = FALSE
          Keep = TRUE
          Depth = 30
          Lazy = FALSE
INVARIANT Emit
CHECK_DEADLOCK FALSE
