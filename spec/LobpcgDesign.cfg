SPECIFICATION Spec
CONSTANTS K = 2
 Top = 1
INVARIANTS OkMeansMet OneRecordEach NoEarlyStop FailCount
CHECK_DEADLOCK FALSE
