SPECIFICATION Spec
CONSTANTS Cap = 5
 Adds = 12
 Grain = 2
INVARIANTS Remembers UsesAll Bounded
CHECK_DEADLOCK FALSE
