CONSTANTS NMax = 3 Ks = {3}
SPECIFICATION Spec
INVARIANTS Packing Gradient Redundant Second
CHECK_DEADLOCK FALSE
