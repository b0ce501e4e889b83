SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Emit = FALSE
VIEW View
INVARIANTS Inv Complete Grows
CHECK_DEADLOCK FALSE
