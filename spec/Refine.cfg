SPECIFICATION Spec
INVARIANT Refinement
CHECK_DEADLOCK FALSE
