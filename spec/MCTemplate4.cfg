SPECIFICATION Spec
CONSTANTS MaxTokens = 4
          Emit = TRUE
INVARIANTS ParseInvertsWrite RenderIsMeaning Clean InRange
CHECK_DEADLOCK FALSE
