SPECIFICATION Spec
CONSTANTS MaxOps = 5
Emit = FALSE
INVARIANTS Inv Safe
VIEW View
