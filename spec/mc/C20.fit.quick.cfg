\* MODULE MCFit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "refuse"
CONSTANT Degrees = {1,2,3}
CONSTANT Extra = 2
CONSTANT More = 1
INVARIANT Exported
INVARIANT Refused
