SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxLen = 4  Emit = FALSE
INVARIANTS BrushOK Now Left Wider NoFilter
VIEW View
CHECK_DEADLOCK FALSE
