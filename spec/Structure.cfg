SPECIFICATION TraceSpec
INVARIANT Diagnosed
CHECK_DEADLOCK FALSE
