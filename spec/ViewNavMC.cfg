SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxLen = 5  Emit = FALSE
INVARIANTS NavOK MoveKeeps ZoomScales Still Once Two
VIEW View
CHECK_DEADLOCK FALSE
