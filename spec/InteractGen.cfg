SPECIFICATION Spec
CONSTANTS MaxOps = 9
 Emit = TRUE
INVARIANT Inv
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
