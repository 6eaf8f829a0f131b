SPECIFICATION Spec
CONSTANTS MaxDim = 3
          MaxSize = 3
INVARIANTS Correct Once Storage
PROPERTY Fresh
CHECK_DEADLOCK FALSE
