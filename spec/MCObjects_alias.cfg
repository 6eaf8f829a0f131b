SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Arrays = {1, 2}
          MaxVer = 4
          Alias = TRUE
          Keep = FALSE
          Depth = 0
          Lazy = FALSE
INVARIANT LastAccepted
PROPERTY Private
CHECK_DEADLOCK FALSE
