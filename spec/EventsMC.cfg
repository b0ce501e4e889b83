SPECIFICATION Spec
CONSTANTS MaxOps = 4
 Emit = FALSE
VIEW View
INVARIANTS Inv Between Timers Calls
CHECK_DEADLOCK FALSE
