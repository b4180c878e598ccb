SPECIFICATION Spec
CONSTANTS NP = 3
 NMAX = 5
 VMAX = 2
INVARIANT Window
INVARIANT Right
PROPERTY Shrinks
PROPERTY Ends
CHECK_DEADLOCK FALSE
