SPECIFICATION Spec
CONSTANT MaxN = 6
INVARIANTS Valid Distinct Requested Remaining Fair
CHECK_DEADLOCK FALSE
