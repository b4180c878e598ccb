CONSTANTS NMax = 4 Ks = {1}
SPECIFICATION Spec
INVARIANTS Packing Gradient Redundant Second
CHECK_DEADLOCK FALSE
