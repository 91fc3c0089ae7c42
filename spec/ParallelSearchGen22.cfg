SPECIFICATION Spec
CONSTANTS N = 2 T = 2 Qualities = {1} Initial = 0 Generate = TRUE
INVARIANTS Deterministic Exclusive
CHECK_DEADLOCK FALSE
