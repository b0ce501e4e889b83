SPECIFICATION Spec
CONSTANTS MaxRuns = 3  Emit = FALSE  Rich = TRUE
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
