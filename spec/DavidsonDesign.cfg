SPECIFICATION Spec
CONSTANTS
  N = 4
  R = 3
  MaxMs = {1, 2, 3, 4, 5}
INVARIANTS InBuffers Agreement NoStray InCoupled Honest MustSucceed Bounded
PROPERTY Ends
