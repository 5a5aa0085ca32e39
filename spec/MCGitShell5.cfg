SPECIFICATION Spec
CONSTANTS Size = 5
 Every = 2
INVARIANTS OneWord Sent Inside Strict Show
CHECK_DEADLOCK FALSE
