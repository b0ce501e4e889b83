SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Emit = FALSE
VIEW View
INVARIANTS Inv Once Laws
CHECK_DEADLOCK FALSE
