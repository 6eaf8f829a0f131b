SPECIFICATION Spec
CONSTANT Calls <- CallsGrad
INVARIANTS Correct Frame CellInv Unity Nearest
PROPERTY Rows
CHECK_DEADLOCK FALSE
