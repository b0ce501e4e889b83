SPECIFICATION Spec
CONSTANTS MaxSets = 3  Emit = TRUE  MaxOps = 2
VIEW View
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
