SPECIFICATION Spec
CONSTANTS Deep = TRUE  MaxOps = 3  Emit = FALSE
INVARIANTS GlyphIn Transposed Spans Clean Full Outward
PROPERTY Local
VIEW View
CHECK_DEADLOCK FALSE
