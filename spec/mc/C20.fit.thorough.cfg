\* MODULE MCFit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "refuse"
CONSTANT Degrees = {1,2,3,4,5}
CONSTANT Extra = 4
CONSTANT More = 3
INVARIANT Exported
INVARIANT Refused
