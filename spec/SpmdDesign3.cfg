SPECIFICATION Spec
CONSTANTS NP = 3 MaxLen = 2
INVARIANTS Confluent Buffering Balanced
CHECK_DEADLOCK FALSE
