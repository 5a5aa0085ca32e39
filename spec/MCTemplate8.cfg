SPECIFICATION Spec
CONSTANTS MaxTokens = 8
          Emit = TRUE
INVARIANTS ParseInvertsWrite RenderIsMeaning Clean InRange
CHECK_DEADLOCK FALSE
