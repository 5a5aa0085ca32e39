SPECIFICATION Spec
CONSTANTS Depth = 3 PrintAt = 3
INVARIANTS Exactly NoMore NothingStale Current CurrentOthers Untouched InputsKept Emitted
CHECK_DEADLOCK FALSE
