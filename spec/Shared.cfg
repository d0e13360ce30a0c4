SPECIFICATION Spec
INVARIANT Pure
CHECK_DEADLOCK FALSE
