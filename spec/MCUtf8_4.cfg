SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Bytes = {1, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 248, 255}
INVARIANTS Exact Expects Completes
PROPERTY NeverRecovers
CHECK_DEADLOCK FALSE
