SPECIFICATION Spec
CONSTANTS Objs = {1, 2}
          Arrays = {1, 2}
          MaxVer = 6
          Alias = FALSE
          Keep = FALSE
          Depth = 0
          Lazy = FALSE
INVARIANT LastAccepted
PROPERTY Private
CHECK_DEADLOCK FALSE
