SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxOps = 12  Emit = TRUE
ACTION_CONSTRAINT EmitAll
VIEW View
CHECK_DEADLOCK FALSE
