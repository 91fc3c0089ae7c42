SPECIFICATION Spec
PROPERTY OnePartition
CHECK_DEADLOCK FALSE
