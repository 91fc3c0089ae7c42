SPECIFICATION Spec
CONSTANTS MaxSteps = 4 Generate = FALSE
INVARIANTS Matching Precedence
PROPERTY Kept
CHECK_DEADLOCK FALSE
