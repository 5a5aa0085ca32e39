SPECIFICATION Spec
CONSTANTS MaxEdits = 2
 Files = {"a", "b"}
 Force = FALSE
 Early = TRUE
CONSTANT Uses <- UsesAB
INVARIANTS Settled Quiet Order
CHECK_DEADLOCK FALSE
