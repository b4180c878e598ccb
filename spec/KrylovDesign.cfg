SPECIFICATION Spec
CONSTANTS
  N = 3
  E = 1
  NB = 2
  DLow = 0
INVARIANTS AllOrthogonal Invariant Resolvent
CHECK_DEADLOCK FALSE
