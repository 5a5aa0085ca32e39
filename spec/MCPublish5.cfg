SPECIFICATION Spec
CONSTANTS Depth = 5 PrintAt = 5 Sharp = TRUE
INVARIANTS SameSuccess SamePages NothingElse Emitted Inputs9
CHECK_DEADLOCK FALSE
