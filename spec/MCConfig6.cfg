SPECIFICATION Spec
CONSTANTS MaxLen = 6
          ShowCases = FALSE
INVARIANTS Moves LineByLine FinalNewline CarriageReturn Extends
PROPERTIES Advances
CHECK_DEADLOCK FALSE
