SPECIFICATION Spec
CONSTANTS N = 4 T = 2 Qualities = {1} Initial = 0 Generate = TRUE
INVARIANTS Deterministic Exclusive
CHECK_DEADLOCK FALSE
