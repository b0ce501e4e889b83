SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxLen = 6  Emit = FALSE
INVARIANTS NavOK MoveKeeps ZoomScales Still Once Two
VIEW View
CHECK_DEADLOCK FALSE
