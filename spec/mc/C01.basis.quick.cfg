\* MODULE MCBasis
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "eval"
CONSTANT Degrees = {0,1,2,3,4}
CONSTANT InnerMax = 3
CONSTANT Den = 4
CONSTANT Fine = 4
CONSTANT Open = FALSE
INVARIANT Exported
INVARIANT SumDef
INVARIANT Ends
INVARIANT Smooth
INVARIANT Blossoms
