SPECIFICATION Spec
CONSTANTS
  Norb = 3
  Steps = 2
  K = 5
INVARIANTS SignIsOperator ElementExact LoopsComplete Reached
CHECK_DEADLOCK FALSE
