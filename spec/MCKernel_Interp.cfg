SPECIFICATION Spec
CONSTANT Calls <- CallsInterp
INVARIANTS Correct Frame CellInv Unity Nearest
PROPERTY Rows
CHECK_DEADLOCK FALSE
