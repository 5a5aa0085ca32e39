SPECIFICATION Spec
CONSTANTS MaxSources = 2 Emit = TRUE
INVARIANTS AllPages PageNumbers
CHECK_DEADLOCK FALSE
