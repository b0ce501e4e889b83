SPECIFICATION Spec
CONSTANTS MaxOps = 14
 Emit = TRUE
INVARIANT Inv
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
