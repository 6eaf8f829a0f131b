SPECIFICATION Spec
CONSTANTS Sizes = {2, 3, 4, 5}
          Values <- SmallVals
          Delta = 1
INVARIANTS Interp NaturalBC Pivots
CHECK_DEADLOCK FALSE
