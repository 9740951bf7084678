SPECIFICATION Spec
INVARIANT Safe
PROPERTY Gone
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
