SPECIFICATION Spec
CONSTANTS Depth = 4 PrintAt = 4 Sharp = TRUE
INVARIANTS SameSuccess SamePages NothingElse Emitted Inputs9
CHECK_DEADLOCK FALSE
