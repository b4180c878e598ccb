SPECIFICATION Spec
CONSTANTS Dets = 3 Vals <- ValsDef MaxLen = 4
INVARIANT Inv
CHECK_DEADLOCK FALSE
