SPECIFICATION Spec
CONSTANTS MaxLen = 5
          MaxN = 2
INVARIANTS Confluent IsIsotonicRegression Conserves
PROPERTY Terminates
CHECK_DEADLOCK FALSE
