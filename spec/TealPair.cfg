SPECIFICATION Spec
INVARIANT Equivalent
CHECK_DEADLOCK FALSE
