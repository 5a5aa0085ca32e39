SPECIFICATION Spec
CONSTANTS MaxEdits = 2
 Files = {"a", "b"}
 Force = TRUE
 Early = FALSE
CONSTANT Uses <- UsesAB
INVARIANTS Settled Quiet Order
CHECK_DEADLOCK FALSE
