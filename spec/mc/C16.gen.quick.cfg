\* MODULE MCGen
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Out = "params"
CONSTANT Degrees = {1}
CONSTANT ParamsMax = 1
CONSTANT Den = 2
CONSTANT Coords = {0,1,4,5}
CONSTANT DataMax = 3
INVARIANT Exported
INVARIANT Chord
INVARIANT Centripetal
INVARIANT Equal
