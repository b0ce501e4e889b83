SPECIFICATION Spec
CONSTANTS Nodes = {"s1", "s2", "a", "b", "d"}  MaxOps = 3  Emit = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
