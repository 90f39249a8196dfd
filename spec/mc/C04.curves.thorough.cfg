\* MODULE MCCurves
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Plan = "range"
CONSTANT Degrees = {0,1,2,3}
CONSTANT InnerMax = 2
CONSTANT Den = 4
CONSTANT Long = TRUE
INVARIANT Exported
INVARIANT AllWellFormed
INVARIANT AllCoherent
INVARIANT AllDenote
INVARIANT Affine
INVARIANT InsertRight
INVARIANT Multiplicities
INVARIANT SplitRight
INVARIANT ReverseRight
INVARIANT DerivRight
INVARIANT MergeRight
INVARIANT EditRight
INVARIANT RebuildRight
INVARIANT RangeRight
