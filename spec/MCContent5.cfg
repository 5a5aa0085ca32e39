SPECIFICATION Spec
CONSTANT MaxLines = 5
INVARIANTS Progress OneBlock WholeBlock Lossless Same Endings Quoted NoFinalEnding
CHECK_DEADLOCK FALSE
