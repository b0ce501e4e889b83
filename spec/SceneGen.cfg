SPECIFICATION Spec
CONSTANTS MaxOps = 10
 Emit = TRUE
INVARIANT Inv
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
