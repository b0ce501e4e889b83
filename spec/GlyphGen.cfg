SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxOps = 6  Emit = TRUE
ACTION_CONSTRAINT EmitAll
VIEW View
CHECK_DEADLOCK FALSE
