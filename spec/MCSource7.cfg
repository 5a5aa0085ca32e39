SPECIFICATION Spec
CONSTANTS MaxLen = 7
          ShowCases = FALSE
INVARIANTS AcceptsExactly Reads Keeps Moves
CHECK_DEADLOCK FALSE
