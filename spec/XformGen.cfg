SPECIFICATION Spec
CONSTANTS MaxRuns = 2  Emit = TRUE  Rich = FALSE
VIEW View
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
