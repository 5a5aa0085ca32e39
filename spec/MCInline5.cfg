SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Balanced Whole NothingLost NothingLost2 EscapedIsLiteral PlainIsLiteral NoPairNoElement
CHECK_DEADLOCK FALSE
