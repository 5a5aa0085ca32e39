SPECIFICATION Spec
CONSTANTS Size = 3
INVARIANTS Same Outside Used Others
CHECK_DEADLOCK FALSE
