CONSTANTS NMax = 4 Ks = {1, 8}
SPECIFICATION Spec
INVARIANTS SameElement SameEnergy FockEnergy
CHECK_DEADLOCK FALSE
