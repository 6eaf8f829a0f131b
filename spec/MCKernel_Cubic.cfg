SPECIFICATION Spec
CONSTANT Calls <- CallsCubic
INVARIANTS Correct Frame CellInv Unity Nearest
PROPERTY Rows
CHECK_DEADLOCK FALSE
