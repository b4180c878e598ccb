SPECIFICATION Spec
CONSTANTS MaxM = 3
          MaxN = 3
INVARIANTS Faithful Laws
CHECK_DEADLOCK FALSE
