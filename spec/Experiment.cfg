SPECIFICATION Spec
INVARIANT Disjoint
PROPERTY Persistent
CHECK_DEADLOCK FALSE
