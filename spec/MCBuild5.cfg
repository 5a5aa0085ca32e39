SPECIFICATION Spec
CONSTANTS Depth = 5 PrintAt = 0
INVARIANTS Exactly NoMore NothingStale Current CurrentOthers Untouched InputsKept
CHECK_DEADLOCK FALSE
