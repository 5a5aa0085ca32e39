SPECIFICATION Spec
CONSTANTS MaxLen = 6
          ShowCases = FALSE
INVARIANTS AcceptsExactly Reads Keeps Moves
CHECK_DEADLOCK FALSE
