SPECIFICATION Spec
INVARIANT Mutex
INVARIANT NoLostWakeup
PROPERTY Refines
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
