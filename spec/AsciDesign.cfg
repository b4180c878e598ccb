SPECIFICATION Spec
CONSTANTS NCand = 4 MaxScore = 2 P = 2
INVARIANT Outcome
CHECK_DEADLOCK FALSE
