SPECIFICATION Spec
CONSTANTS MaxHeaders = 5 MaxLevel = 4
INVARIANTS Exists Balanced Entries
CHECK_DEADLOCK FALSE
