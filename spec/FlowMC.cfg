SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxLen = 3  Emit = FALSE
INVARIANTS FlowOK EndsToo BothWays UpFlow
VIEW View
CHECK_DEADLOCK FALSE
