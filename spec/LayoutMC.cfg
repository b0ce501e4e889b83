SPECIFICATION Spec
CONSTANTS MaxRuns = 2  MaxOps = 2  Emit = FALSE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
