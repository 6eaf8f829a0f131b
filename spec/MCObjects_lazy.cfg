SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Arrays = {1, 2}
          MaxVer = 4
          Alias = FALSE
          Keep = FALSE
          Depth = 0
          Lazy = TRUE
INVARIANT LastAccepted
PROPERTY Private
CHECK_DEADLOCK FALSE
