CONSTANTS NMax = 3 Ks = {3}
SPECIFICATION Spec
INVARIANTS SameElement SameEnergy FockEnergy
CHECK_DEADLOCK FALSE
