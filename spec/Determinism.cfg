SPECIFICATION Spec
PROPERTY Stable
CHECK_DEADLOCK FALSE
