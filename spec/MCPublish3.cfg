SPECIFICATION Spec
CONSTANTS Depth = 3 PrintAt = 3 Sharp = TRUE
INVARIANTS SameSuccess SamePages NothingElse Emitted Inputs9
CHECK_DEADLOCK FALSE
