SPECIFICATION Spec
CONSTANTS MaxLen = 5
          ShowCases = TRUE
INVARIANTS AcceptsExactly Reads Keeps Moves
CHECK_DEADLOCK FALSE
