SPECIFICATION Spec
CONSTANTS MaxOps = 6
Emit = FALSE
INVARIANTS Inv Safe Laws
VIEW View
