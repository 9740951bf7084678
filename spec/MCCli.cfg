SPECIFICATION Spec
INVARIANT Inv
PROPERTY PropertiesHold
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
