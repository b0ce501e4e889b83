SPECIFICATION Spec
CONSTANTS MaxOps = 6
 Emit = FALSE
VIEW View
INVARIANTS Inv Between Timers Calls
CHECK_DEADLOCK FALSE
