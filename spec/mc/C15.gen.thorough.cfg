\* MODULE MCGen
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "deboor"
CONSTANT Degrees = {1,2,3,4,5}
CONSTANT ParamsMax = 7
CONSTANT Den = 10
CONSTANT Coords = {0}
CONSTANT DataMax = 1
INVARIANT Exported
INVARIANT Valid
INVARIANT DeBoorSpans
INVARIANT Unique
