SPECIFICATION Spec
CONSTANTS MaxOps = 5
 Emit = FALSE
VIEW View
INVARIANTS Inv Select Highlight Quiet
CHECK_DEADLOCK FALSE
