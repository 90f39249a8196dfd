\* MODULE MCPoints
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT CountMax = 7
CONSTANT DimMax = 4
CONSTANT Kinds = {"data", "control", "capacity"}
INVARIANT Exported
INVARIANT Reversal
