SPECIFICATION Spec
CONSTANTS MaxRuns = 3  Emit = FALSE
INVARIANT Inv
PROPERTY Identity
CHECK_DEADLOCK FALSE
