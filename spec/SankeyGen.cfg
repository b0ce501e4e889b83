SPECIFICATION Spec
CONSTANTS Small = FALSE  MaxRuns = 3  Emit = TRUE  MaxOps = 2  Kinds = {"links", "nodes", "tree"}
VIEW View
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
