SPECIFICATION Spec
CONSTANTS Nodes = {"s1", "a", "b"}  MaxOps = 2  Emit = FALSE
INVARIANT Inv
PROPERTY Terminates
CHECK_DEADLOCK FALSE
