CONSTANTS NO = 2 NN = 3
SPECIFICATION Spec
INVARIANTS Direct Staged SymKept
CHECK_DEADLOCK FALSE
