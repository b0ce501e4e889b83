SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxLen = 2  Emit = FALSE
INVARIANTS NudgeOK DodgeApart JitterNear SymAgree OverApart OverSome
VIEW View
CHECK_DEADLOCK FALSE
