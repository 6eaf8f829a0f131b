SPECIFICATION Spec
CONSTANT Calls <- CallsDeriv
INVARIANTS Correct Frame CellInv Unity Nearest
PROPERTY Rows
CHECK_DEADLOCK FALSE
