SPECIFICATION Spec
CONSTANTS MaxNodes = 3
 MaxSegs = 3
 ShowCases = FALSE
 Every = 11
INVARIANTS Contained NoInfluence Redirects Writing
CHECK_DEADLOCK FALSE
