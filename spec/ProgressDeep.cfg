SPECIFICATION Spec
CONSTANTS MaxOps = 7
 Emit = FALSE
VIEW View
INVARIANTS Inv Complete Grows
CHECK_DEADLOCK FALSE
