SPECIFICATION Spec
INVARIANT Modes
INVARIANT Served
PROPERTY Refines
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
