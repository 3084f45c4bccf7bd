SPECIFICATION TraceSpec
INVARIANT Documented
CHECK_DEADLOCK FALSE
