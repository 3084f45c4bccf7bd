SPECIFICATION TraceSpec
INVARIANT AsSpecified
CHECK_DEADLOCK FALSE
