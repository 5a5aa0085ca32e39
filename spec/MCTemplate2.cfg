SPECIFICATION Spec
CONSTANTS MaxTokens = 2
          Emit = TRUE
INVARIANTS ParseInvertsWrite RenderIsMeaning Clean InRange
CHECK_DEADLOCK FALSE
