SPECIFICATION Spec
CONSTANTS Coefs = {"c1", "c2"}
          Vals = {"v1", "v2"}
          Points = {"p1", "p2"}
          Grids = {"g1"}
          Sigs = {1, 2, 3}
          MaxVer = 9
          Sticky = FALSE
          Memo = FALSE
          ById = FALSE
          Keep = TRUE
          Depth = 14
INVARIANT Emit
CHECK_DEADLOCK FALSE
