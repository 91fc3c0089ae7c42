SPECIFICATION Spec
INVARIANT Limits
PROPERTY Refines
CHECK_DEADLOCK FALSE
