CONSTANT MaxText = 4
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
