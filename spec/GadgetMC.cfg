SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxRuns = 1  MaxOps = 2  Emit = FALSE
INVARIANTS GadgetIn Sound BarLaws
PROPERTY Tight
VIEW View
CHECK_DEADLOCK FALSE
