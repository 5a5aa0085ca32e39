SPECIFICATION Spec
CONSTANTS Size = 6
 Every = 2
INVARIANTS OneWord Sent Inside Strict Show
CHECK_DEADLOCK FALSE
