SPECIFICATION Spec
CONSTANTS MaxRuns = 3  Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
