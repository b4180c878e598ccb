SPECIFICATION Spec
CONSTANTS Norb = 5 MaxSize = 5 P = 3
INVARIANT Inv
CHECK_DEADLOCK FALSE
