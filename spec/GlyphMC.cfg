SPECIFICATION Spec
CONSTANTS Deep = FALSE  MaxOps = 2  Emit = FALSE
INVARIANTS GlyphIn Transposed Spans Clean Full Outward
PROPERTY Local
VIEW View
CHECK_DEADLOCK FALSE
