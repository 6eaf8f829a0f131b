SPECIFICATION Spec
CONSTANT Calls <- CallsLinear
INVARIANTS Correct Frame CellInv Unity Nearest
PROPERTY Rows
CHECK_DEADLOCK FALSE
