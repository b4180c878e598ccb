SPECIFICATION Spec
CONSTANTS
  Norb = 2
  Vals = {0, 1, 2}
  MaxOps = 4
INVARIANTS WriteRead ReadIs NeverBad
CHECK_DEADLOCK FALSE
