SPECIFICATION Spec
PROPERTY Independent
CHECK_DEADLOCK FALSE
