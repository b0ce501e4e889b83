SPECIFICATION Spec
CONSTANTS MaxOps = 4
Emit = TRUE
ACTION_CONSTRAINT EmitAll
