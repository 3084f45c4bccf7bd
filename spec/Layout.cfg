SPECIFICATION Spec
INVARIANT Canonical
CHECK_DEADLOCK FALSE
