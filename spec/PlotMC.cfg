SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxOps = 3  Emit = FALSE
INVARIANTS PlotIn Checks
VIEW View
CHECK_DEADLOCK FALSE
