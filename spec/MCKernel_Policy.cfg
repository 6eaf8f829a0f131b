SPECIFICATION Spec
CONSTANT Calls <- CallsPolicy
INVARIANTS Correct Frame CellInv Unity Nearest
PROPERTY Rows
CHECK_DEADLOCK FALSE
