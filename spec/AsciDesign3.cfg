SPECIFICATION Spec
CONSTANTS NCand = 5 MaxScore = 3 P = 3
INVARIANT Outcome
CHECK_DEADLOCK FALSE
