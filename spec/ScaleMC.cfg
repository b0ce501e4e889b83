SPECIFICATION Spec
CONSTANTS MaxRuns = 2  Emit = FALSE  Rich = FALSE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
