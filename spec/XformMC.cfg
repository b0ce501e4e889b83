SPECIFICATION Spec
CONSTANTS MaxRuns = 2  Emit = FALSE  Rich = TRUE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
