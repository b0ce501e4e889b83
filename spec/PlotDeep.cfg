SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxOps = 4  Emit = FALSE
INVARIANTS PlotIn Checks
VIEW View
CHECK_DEADLOCK FALSE
