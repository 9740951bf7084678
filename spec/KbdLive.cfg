SPECIFICATION Spec
INVARIANT Modes
INVARIANT Served
PROPERTY Refines
PROPERTY Prompt
CHECK_DEADLOCK FALSE
