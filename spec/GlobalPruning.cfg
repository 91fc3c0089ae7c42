SPECIFICATION Spec
INVARIANT Buffers
INVARIANT Sound
CHECK_DEADLOCK FALSE
