SPECIFICATION Spec
INVARIANT Bounded
PROPERTY Progress
CHECK_DEADLOCK FALSE
