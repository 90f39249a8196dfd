\* MODULE MCFit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "interp"
CONSTANT Degrees = {1,2,3,4,5}
CONSTANT Extra = 5
CONSTANT More = 0
INVARIANT Exported
INVARIANT Optimal
INVARIANT Through
INVARIANT Constants
