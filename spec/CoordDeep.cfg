SPECIFICATION Spec
CONSTANTS MaxSets = 4  Emit = FALSE  MaxOps = 3
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
