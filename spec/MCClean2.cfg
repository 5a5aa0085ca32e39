SPECIFICATION Spec
CONSTANTS Size = 2
INVARIANTS Same Outside Used Others
CHECK_DEADLOCK FALSE
