SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxRuns = 1  MaxOps = 3  Emit = FALSE
INVARIANTS GadgetIn Sound BarLaws
PROPERTY Tight
VIEW View
CHECK_DEADLOCK FALSE
