SPECIFICATION Spec
CONSTANTS MaxDim = 3
          MaxSize = 4
INVARIANTS Correct Once Storage
PROPERTY Fresh
CHECK_DEADLOCK FALSE
