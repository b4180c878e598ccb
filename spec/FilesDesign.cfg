CONSTANTS NPath = 2 NVal = 2
SPECIFICATION Spec
INVARIANTS ReadLast Quiet Meaning
CHECK_DEADLOCK FALSE
