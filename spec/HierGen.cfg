SPECIFICATION Spec
CONSTANTS Small = FALSE  MaxRuns = 3  Emit = TRUE  MaxOps = 2  Types = {"treemap", "sunburst", "tree", "circlePacking"}
VIEW View
ACTION_CONSTRAINT EmitAll
CHECK_DEADLOCK FALSE
