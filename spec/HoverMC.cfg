SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxLen = 3  Emit = FALSE
INVARIANTS HoverOK Covers Agree Gone Forgets
VIEW View
CHECK_DEADLOCK FALSE
