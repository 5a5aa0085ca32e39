SPECIFICATION Spec
CONSTANTS MaxSources = 3 Emit = FALSE
INVARIANTS AllPages PageNumbers
CHECK_DEADLOCK FALSE
