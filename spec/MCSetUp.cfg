SPECIFICATION Spec
INVARIANTS Ours Must Can Show
CHECK_DEADLOCK FALSE
