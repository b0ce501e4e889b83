SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxLen = 10  Emit = TRUE
ACTION_CONSTRAINT EmitAll
VIEW View
CHECK_DEADLOCK FALSE
