\* MODULE MCCurves
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Plan = "evaluate"
CONSTANT Degrees = {1,2,3}
CONSTANT InnerMax = 2
CONSTANT Den = 4
CONSTANT Long = FALSE
INVARIANT Exported
INVARIANT AllWellFormed
INVARIANT AllCoherent
INVARIANT AllDenote
INVARIANT Affine
INVARIANT InsertRight
INVARIANT Multiplicities
INVARIANT SplitRight
INVARIANT ReverseRight
INVARIANT DerivRight
INVARIANT MergeRight
INVARIANT EditRight
INVARIANT RebuildRight
INVARIANT RangeRight
