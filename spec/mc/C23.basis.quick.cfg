\* MODULE MCBasis
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "queries"
CONSTANT Degrees = {0,1,2,3,4}
CONSTANT InnerMax = 4
CONSTANT Den = 4
CONSTANT Fine = 2
CONSTANT Open = FALSE
INVARIANT Exported
INVARIANT Queries
