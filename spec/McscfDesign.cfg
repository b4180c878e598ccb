SPECIFICATION Spec
CONSTANTS MaxIter = 9
 Range = 9
 Cap = 2
 Keep0 = 3
 Start = 0
INVARIANTS Accumulated FreshRdm Announce Counted NoWork NotAbove
CHECK_DEADLOCK FALSE
