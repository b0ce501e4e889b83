SPECIFICATION TraceSpec
INVARIANT Inv
CHECK_DEADLOCK FALSE
