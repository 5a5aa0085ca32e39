SPECIFICATION Spec
CONSTANTS MaxTokens = 5
          Emit = TRUE
INVARIANTS ParseInvertsWrite RenderIsMeaning Clean InRange
CHECK_DEADLOCK FALSE
