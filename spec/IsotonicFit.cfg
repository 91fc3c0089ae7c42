SPECIFICATION Spec
CONSTANT Tol = 65536
CHECK_DEADLOCK FALSE
