\* MODULE MCBasis
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "basis"
CONSTANT Degrees = {0,1,2,3}
CONSTANT InnerMax = 2
CONSTANT Den = 4
CONSTANT Fine = 1
CONSTANT Open = TRUE
INVARIANT Exported
INVARIANT Recurrence
INVARIANT Unity
INVARIANT Positive
INVARIANT Local
INVARIANT SumDef
INVARIANT Taylor
INVARIANT Beyond
INVARIANT Smooth
INVARIANT Towers
INVARIANT Blossoms
