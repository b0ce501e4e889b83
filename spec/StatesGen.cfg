SPECIFICATION Spec
CONSTANTS MaxOps = 3
Emit = TRUE
ACTION_CONSTRAINT EmitAll
