SPECIFICATION Spec
INVARIANTS Same Secant Symm Positive
CHECK_DEADLOCK FALSE
