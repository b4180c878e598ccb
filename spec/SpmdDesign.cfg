SPECIFICATION Spec
CONSTANTS NP = 2 MaxLen = 3
INVARIANTS Confluent Buffering Balanced
CHECK_DEADLOCK FALSE
