SPECIFICATION Spec
CONSTANTS
  MaxArgs = 3
  ShowCases = TRUE
INVARIANTS Ends Gathers Moves
CHECK_DEADLOCK FALSE
