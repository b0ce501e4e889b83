SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxRuns = 1  MaxOps = 3  Emit = FALSE
INVARIANTS GuideIn Sound Follows Flip
PROPERTY Tight
VIEW View
CHECK_DEADLOCK FALSE
