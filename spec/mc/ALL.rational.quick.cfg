\* MODULE RationalCheck
SPECIFICATION Spec
INVARIANT Scalars
INVARIANT Big
INVARIANT Vectors
INVARIANT Specials
