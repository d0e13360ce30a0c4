SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS Closed Abelian Homomorphic Cancels
