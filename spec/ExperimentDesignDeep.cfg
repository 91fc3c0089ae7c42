SPECIFICATION Spec
CONSTANTS MaxSteps = 5 Generate = FALSE
INVARIANTS Matching Precedence
PROPERTY Kept
CHECK_DEADLOCK FALSE
