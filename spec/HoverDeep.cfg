SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxLen = 3  Emit = FALSE
INVARIANTS HoverOK Covers Agree Gone Forgets
VIEW View
CHECK_DEADLOCK FALSE
