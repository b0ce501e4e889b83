SPECIFICATION Spec
CONSTANTS MaxRuns = 2  MaxOps = 2  Emit = TRUE
ACTION_CONSTRAINT EmitAll
VIEW View
CHECK_DEADLOCK FALSE
