SPECIFICATION Spec
INVARIANT Mutex
INVARIANT NoLostWakeup
PROPERTY Refines
PROPERTY StopEnds
PROPERTY Served
CHECK_DEADLOCK FALSE
