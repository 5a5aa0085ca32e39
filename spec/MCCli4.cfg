SPECIFICATION Spec
CONSTANTS
  MaxArgs = 4
  ShowCases = FALSE
INVARIANTS Ends Gathers Moves
CHECK_DEADLOCK FALSE
