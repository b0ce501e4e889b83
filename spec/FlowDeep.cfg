SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxLen = 2  Emit = FALSE
INVARIANTS FlowOK EndsToo BothWays UpFlow
VIEW View
CHECK_DEADLOCK FALSE
