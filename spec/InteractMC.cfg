SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Emit = FALSE
VIEW View
INVARIANTS Inv Select Highlight Quiet
CHECK_DEADLOCK FALSE
