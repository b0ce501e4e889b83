SPECIFICATION Spec
CONSTANTS Small = FALSE  MaxRuns = 1  Emit = FALSE  MaxOps = 0  Kinds = {"links", "nodes", "tree"}
INVARIANTS SankeyIn Sound Tight Fits
VIEW View
CHECK_DEADLOCK FALSE
