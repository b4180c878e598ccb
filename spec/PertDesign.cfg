SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANTS Electrons Symm Emptied Fill Lower
CHECK_DEADLOCK FALSE
