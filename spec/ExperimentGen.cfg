SPECIFICATION Spec
CONSTANTS MaxSteps = 3 Generate = TRUE
INVARIANTS Matching
CHECK_DEADLOCK FALSE
