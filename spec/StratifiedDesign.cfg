SPECIFICATION Spec
CONSTANTS MaxN = 18 Generate = FALSE
INVARIANTS Sane Exact Balance
PROPERTY Proportional
CHECK_DEADLOCK FALSE
