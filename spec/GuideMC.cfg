SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxRuns = 1  MaxOps = 2  Emit = FALSE
INVARIANTS GuideIn Sound Follows Flip
PROPERTY Tight
VIEW View
CHECK_DEADLOCK FALSE
