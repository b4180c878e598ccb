SPECIFICATION Spec
CONSTANTS S = 4  V = 2  D = 2
INVARIANTS Met Down
PROPERTY Terminates
CHECK_DEADLOCK FALSE
