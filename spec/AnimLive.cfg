SPECIFICATION FairSpec
CONSTANTS MaxOps = 3
Emit = FALSE
PROPERTY Rest
