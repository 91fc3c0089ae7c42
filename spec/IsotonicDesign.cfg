SPECIFICATION Spec
CONSTANTS MaxLen = 4
          MaxN = 2
INVARIANTS Confluent IsIsotonicRegression Conserves
CHECK_DEADLOCK FALSE
