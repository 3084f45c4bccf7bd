SPECIFICATION TraceSpec
INVARIANT Pure
CHECK_DEADLOCK FALSE
