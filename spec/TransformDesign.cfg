CONSTANTS NO = 2 NN = 2
SPECIFICATION Spec
INVARIANTS Direct Staged SymKept
CHECK_DEADLOCK FALSE
