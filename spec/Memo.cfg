SPECIFICATION Spec
INVARIANTS Sound Exposed
CHECK_DEADLOCK FALSE
