SPECIFICATION Spec
CONSTANTS MaxNodes = 2
 MaxSegs = 3
 ShowCases = TRUE
 Every = 37
INVARIANTS Contained NoInfluence Redirects Writing
CHECK_DEADLOCK FALSE
