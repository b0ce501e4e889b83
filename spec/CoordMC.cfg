SPECIFICATION Spec
CONSTANTS MaxSets = 3  Emit = FALSE  MaxOps = 2
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
