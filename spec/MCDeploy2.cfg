SPECIFICATION Spec
CONSTANTS Revs = {1,2}
 MaxOps = 2
 Show2 = TRUE
INVARIANTS LiveIsFull LiveIsThere Ends Tidy Recovers Case
CHECK_DEADLOCK FALSE
