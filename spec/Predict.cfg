SPECIFICATION Spec
CONSTANT Tol = 1024
INVARIANT AppliedIsPrefix
PROPERTY NoRuleUnapplied
CHECK_DEADLOCK FALSE
