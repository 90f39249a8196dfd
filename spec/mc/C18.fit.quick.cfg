\* MODULE MCFit
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "fit"
CONSTANT Degrees = {1,2,3}
CONSTANT Extra = 2
CONSTANT More = 2
INVARIANT Exported
INVARIANT Optimal
INVARIANT EndsKept
INVARIANT Through
INVARIANT Constants
