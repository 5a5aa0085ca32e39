SPECIFICATION Spec
CONSTANTS Size = 4
INVARIANTS Word Inside
CHECK_DEADLOCK FALSE
