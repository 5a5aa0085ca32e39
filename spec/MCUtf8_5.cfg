SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
  Bytes = {65, 128, 143, 144, 160, 191, 193, 195, 224, 237, 239, 240, 243, 244, 245}
INVARIANTS Exact Expects Completes
PROPERTY NeverRecovers
CHECK_DEADLOCK FALSE
