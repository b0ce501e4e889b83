SPECIFICATION Spec
CONSTANTS Nodes = {"s1", "a", "b"}  MaxOps = 3  Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
