SPECIFICATION Spec
CONSTANTS Depth = 4 PrintAt = 4
INVARIANTS Exactly NoMore NothingStale Current CurrentOthers Untouched InputsKept Emitted
CHECK_DEADLOCK FALSE
