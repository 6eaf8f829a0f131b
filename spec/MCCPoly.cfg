SPECIFICATION Spec
CONSTANTS NV = {1, 2, 3, 4}
          MaxD = 5
INVARIANTS Index Correct Complete CountLoop
CHECK_DEADLOCK FALSE
