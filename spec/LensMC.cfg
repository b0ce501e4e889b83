SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxLen = 3  Emit = FALSE
INVARIANTS LensOK
VIEW View
CHECK_DEADLOCK FALSE
