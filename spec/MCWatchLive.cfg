SPECIFICATION Spec
CONSTANTS MaxEdits = 2
 Files = {"a", "b"}
 Force = TRUE
 Early = TRUE
CONSTANT Uses <- UsesAB
PROPERTY Converges
CHECK_DEADLOCK FALSE
