SPECIFICATION Spec
CONSTANTS Small = TRUE  MaxRuns = 1  Emit = FALSE  MaxOps = 0  Types = {"treemap", "sunburst", "tree", "circlePacking"}
INVARIANT Inv
VIEW View
CHECK_DEADLOCK FALSE
