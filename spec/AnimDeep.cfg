SPECIFICATION Spec
CONSTANTS MaxOps = 7
Emit = FALSE
INVARIANTS Inv Safe
VIEW View
