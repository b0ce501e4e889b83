SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxOps = 5  Emit = FALSE
INVARIANTS SiftIn Sound Restored Commutes Local
PROPERTY Stale
VIEW View
CHECK_DEADLOCK FALSE
