SPECIFICATION Spec
CONSTANTS Norb = 5 MaxSize = 4 P = 2
INVARIANT Inv
CHECK_DEADLOCK FALSE
