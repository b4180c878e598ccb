SPECIFICATION Spec
CONSTANTS
  N = 4
  P = 3
  RULE = "global"
INVARIANTS Agree Faithful
PROPERTY Terminates
