SPECIFICATION Spec
INVARIANT Whole
CHECK_DEADLOCK FALSE
