SPECIFICATION Spec
CONSTANTS MaxLen = 5
          ShowCases = TRUE
INVARIANTS Moves LineByLine
CHECK_DEADLOCK FALSE
