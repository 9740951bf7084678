SPECIFICATION Spec
ACTION_CONSTRAINT Track
CHECK_DEADLOCK FALSE
