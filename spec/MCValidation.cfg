SPECIFICATION Spec
CONSTANT MaxArgs = 3
INVARIANT Correct
CHECK_DEADLOCK FALSE
