SPECIFICATION Spec
CONSTANTS Depth = 3 PrintAt = 0 Sharp = FALSE
INVARIANTS SameSuccess SamePages NothingElse Emitted Inputs9
CHECK_DEADLOCK FALSE
