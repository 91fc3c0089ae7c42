SPECIFICATION Spec
INVARIANT Limits
INVARIANT Coverage
PROPERTY Refines
PROPERTY Progress
CHECK_DEADLOCK FALSE
