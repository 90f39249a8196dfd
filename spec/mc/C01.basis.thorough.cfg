\* MODULE MCBasis
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "eval"
CONSTANT Degrees = {0,1,2,3,4,5,6}
CONSTANT InnerMax = 4
CONSTANT Den = 6
CONSTANT Fine = 4
CONSTANT Open = FALSE
INVARIANT Exported
INVARIANT SumDef
INVARIANT Ends
INVARIANT Smooth
INVARIANT Blossoms
