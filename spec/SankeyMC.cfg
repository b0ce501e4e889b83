SPECIFICATION Spec
CONSTANTS Small = TRUE  MaxRuns = 1  Emit = FALSE  MaxOps = 0  Kinds = {"links", "nodes", "tree"}
INVARIANTS SankeyIn Sound Tight Fits
VIEW View
CHECK_DEADLOCK FALSE
