SPECIFICATION Spec
CONSTANTS Dets = 3 Vals <- ValsDef MaxLen = 6
INVARIANT Inv
CHECK_DEADLOCK FALSE
