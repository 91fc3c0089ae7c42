SPECIFICATION Spec
CONSTANTS MaxN = 8 Generate = TRUE
INVARIANTS Sane
CHECK_DEADLOCK FALSE
