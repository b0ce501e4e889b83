SPECIFICATION GenSpec
CONSTANTS Nodes = {"s1", "a", "b"}  MaxOps = 3  Emit = TRUE
VIEW View
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
