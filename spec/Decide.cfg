SPECIFICATION Spec
CONSTANT Tol = 4096
INVARIANT Normalized
CHECK_DEADLOCK FALSE
