\* MODULE MCBasis
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "basis"
CONSTANT Degrees = {0,1,2,3,4}
CONSTANT InnerMax = 3
CONSTANT Den = 4
CONSTANT Fine = 2
CONSTANT Open = FALSE
INVARIANT Exported
INVARIANT Recurrence
INVARIANT Unity
INVARIANT Positive
INVARIANT Local
