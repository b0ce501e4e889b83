SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxOps = 4  Emit = FALSE
INVARIANTS SiftIn Sound Restored Commutes Local
PROPERTY Stale
VIEW View
CHECK_DEADLOCK FALSE
