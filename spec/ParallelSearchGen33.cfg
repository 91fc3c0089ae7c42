SPECIFICATION Spec
CONSTANTS N = 3 T = 3 Qualities = {1} Initial = 0 Generate = TRUE
INVARIANTS Deterministic Exclusive
CHECK_DEADLOCK FALSE
