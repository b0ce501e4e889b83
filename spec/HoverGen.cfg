SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxLen = 12  Emit = TRUE
ACTION_CONSTRAINT EmitAll
VIEW View
CHECK_DEADLOCK FALSE
