SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxOps = 10  Emit = TRUE
ACTION_CONSTRAINT EmitAll
VIEW View
CHECK_DEADLOCK FALSE
