SPECIFICATION Spec
CONSTANTS
  MaxW = 7
  Factors = {1, 2, 3}
  MaxIt = 3
  Energies = {0, 1, 3}
INVARIANTS Monotone Exact Matches NoFalseFailure
PROPERTY Ends
