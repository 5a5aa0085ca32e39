SPECIFICATION Spec
CONSTANTS MaxTokens = 3
          Emit = TRUE
INVARIANTS ParseInvertsWrite RenderIsMeaning Clean InRange
CHECK_DEADLOCK FALSE
