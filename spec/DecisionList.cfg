SPECIFICATION Spec
INVARIANT Undecided
PROPERTY Final
CHECK_DEADLOCK FALSE
