SPECIFICATION Spec
CONSTANTS S = 5  V = 3  D = 2
INVARIANTS Met Down
PROPERTY Terminates
CHECK_DEADLOCK FALSE
