SPECIFICATION Spec
CONSTANT Norb = 4
INVARIANTS Conserved SinglesExact DoublesExact Sizes
CHECK_DEADLOCK FALSE
