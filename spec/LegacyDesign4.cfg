SPECIFICATION Spec
CONSTANTS
  Norb = 4
  Steps = 3
  K = 5
INVARIANTS SignIsOperator ElementExact LoopsComplete Reached
CHECK_DEADLOCK FALSE
