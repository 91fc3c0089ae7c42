SPECIFICATION Spec
CONSTANTS N = 3 T = 3 Qualities = {0, 1, 2} Initial = 0 Generate = FALSE
INVARIANTS Deterministic Exclusive
PROPERTY Complete
CHECK_DEADLOCK FALSE
