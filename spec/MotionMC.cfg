SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxLen = 4  Emit = FALSE
INVARIANTS MotionOK CollapseOnce NoExtent OnlyMine
VIEW View
CHECK_DEADLOCK FALSE
