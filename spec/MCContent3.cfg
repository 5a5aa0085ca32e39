SPECIFICATION Spec
CONSTANT MaxLines = 3
INVARIANTS Progress OneBlock WholeBlock Lossless Same Endings Quoted NoFinalEnding
CHECK_DEADLOCK FALSE
