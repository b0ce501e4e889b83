SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxLen = 5  Emit = FALSE
INVARIANTS LensOK
VIEW View
CHECK_DEADLOCK FALSE
