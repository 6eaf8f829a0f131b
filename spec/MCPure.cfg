SPECIFICATION Spec
CONSTANTS Coefs = {"c1", "c2"}
          Vals = {"v1"}
          Points = {"p1", "p2"}
          Grids = {"g1"}
          Sigs = {1, 2}
          MaxVer = 1
          Sticky = FALSE
          Memo = FALSE
          ById = FALSE
          Keep = FALSE
          Depth = 0
INVARIANT Pure
PROPERTY Frame
CHECK_DEADLOCK FALSE
