\* MODULE MCFit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "fit"
CONSTANT Degrees = {1,2,3,4}
CONSTANT Extra = 4
CONSTANT More = 3
INVARIANT Exported
INVARIANT Optimal
INVARIANT EndsKept
INVARIANT Through
INVARIANT Constants
