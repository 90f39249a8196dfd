\* MODULE MCBasis
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "queries"
CONSTANT Degrees = {0,1,2,3,4,5,6}
CONSTANT InnerMax = 5
CONSTANT Den = 6
CONSTANT Fine = 2
CONSTANT Open = FALSE
INVARIANT Exported
INVARIANT Queries
