SPECIFICATION Spec
CONSTANTS Size = 5
INVARIANTS Word Inside
CHECK_DEADLOCK FALSE
