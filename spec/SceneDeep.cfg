SPECIFICATION Spec
CONSTANTS MaxOps = 6
 Emit = FALSE
VIEW View
INVARIANTS Inv Once Laws
CHECK_DEADLOCK FALSE
