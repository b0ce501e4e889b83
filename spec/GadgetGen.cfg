SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxRuns = 4  MaxOps = 3  Emit = TRUE
ACTION_CONSTRAINT EmitAll
VIEW View
CHECK_DEADLOCK FALSE
