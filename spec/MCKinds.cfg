SPECIFICATION Spec
INVARIANT Same
INVARIANT Final
INVARIANT Position
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
