\* MODULE MCPairs
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Degrees = {1,2}
CONSTANT InnerMax = 1
CONSTANT Den = 2
CONSTANT LenA = 1
CONSTANT LenB = 1
INVARIANT Exported
INVARIANT Independence
INVARIANT Frame
