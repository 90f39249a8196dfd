\* MODULE MCPoints
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT CountMax = 5
CONSTANT DimMax = 3
CONSTANT Kinds = {"data", "control", "capacity"}
INVARIANT Exported
INVARIANT Reversal
