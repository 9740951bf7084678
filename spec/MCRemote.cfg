SPECIFICATION Spec
INVARIANT Inv
INVARIANT ZipOk
PROPERTY PropertiesHold
VIEW View
ACTION_CONSTRAINT EmitTransition
CHECK_DEADLOCK FALSE
