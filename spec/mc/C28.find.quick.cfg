\* MODULE MCBasis
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "find"
CONSTANT Degrees = {0,1,2,3}
CONSTANT InnerMax = 2
CONSTANT Den = 4
CONSTANT Fine = 1
CONSTANT Open = TRUE
INVARIANT Exported
INVARIANT Search
INVARIANT Queries
