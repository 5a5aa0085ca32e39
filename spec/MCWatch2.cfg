SPECIFICATION Spec
CONSTANTS MaxEdits = 2
 Files = {"a", "b"}
 Force = TRUE
 Early = TRUE
CONSTANT Uses <- UsesAB
INVARIANTS Settled Quiet Order Show
CHECK_DEADLOCK FALSE
