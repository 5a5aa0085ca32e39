SPECIFICATION Spec
CONSTANTS MaxTokens = 7
          Emit = TRUE
INVARIANTS ParseInvertsWrite RenderIsMeaning Clean InRange
CHECK_DEADLOCK FALSE
