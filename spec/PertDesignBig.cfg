SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANTS Electrons Symm Emptied Fill Lower
CHECK_DEADLOCK FALSE
