SPECIFICATION Spec
CONSTANTS MaxM = 3
          MaxN = 2
INVARIANTS Faithful Laws
CHECK_DEADLOCK FALSE
