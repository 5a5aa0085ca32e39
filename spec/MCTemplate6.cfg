SPECIFICATION Spec
CONSTANTS MaxTokens = 6
          Emit = TRUE
INVARIANTS ParseInvertsWrite RenderIsMeaning Clean InRange
CHECK_DEADLOCK FALSE
