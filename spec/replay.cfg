SPECIFICATION Spec
INVARIANT Judge
POSTCONDITION Post
CHECK_DEADLOCK FALSE
