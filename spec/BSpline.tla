------------------------------ MODULE BSpline -------------------------------
(***************************************************************************)
(* The mathematics of B-spline curves in exact arithmetic.                 *)
(*                                                                         *)
(* Indices are those of the literature (Piegl, Tiller) and of the          *)
(* documentation of the crate, starting at 0: At(s, i) is s[i+1].          *)
(*   p  degree                                                             *)
(*   U  knots u_0 .. u_{n+p+1}                                             *)
(*   P  control points P_0 .. P_n, each a vector of dimension dim          *)
(***************************************************************************)
EXTENDS LinAlg, FiniteSets

At(s, i) == s[i + 1]
Sub(s, a, b) == SubSeq(s, a + 1, b + 1)        \* s_a .. s_b
Rev(s) == Tab(Len(s), LAMBDA i : s[Len(s) - i])

LastIdx(U, p) == Len(U) - p - 2                \* n, the last basis function

(***************************************************************************)
(* Basis functions.                                                        *)
(***************************************************************************)
\* The definition (Cox, de Boor): right-continuous, at the end of the domain those
\* of its last span, 0/0 := 0.
RECURSIVE NDef(_, _, _, _)
NDef(U, p, i, u) ==
  LET RECURSIVE N(_, _)
      N(j, d) ==
        IF d = 0
        THEN IF u = At(U, LastIdx(U, p) + 1)
             THEN IF j = LastIdx(U, p) THEN One ELSE Zero
             ELSE IF RLe(At(U, j), u) /\ RLt(u, At(U, j + 1)) THEN One ELSE Zero
        ELSE LET w1 == RSub(At(U, j + d), At(U, j))
                 w2 == RSub(At(U, j + d + 1), At(U, j + 1))
             IN RAdd(IF w1 = Zero THEN Zero ELSE RMul(RDiv(RSub(u, At(U, j)), w1), N(j, d - 1)),
                     IF w2 = Zero THEN Zero ELSE RMul(RDiv(RSub(At(U, j + d + 1), u), w2), N(j + 1, d - 1)))
  IN N(i, p)

\* The knot span of u: the last non-empty one starting at or before u
RECURSIVE SpanFrom(_, _, _)
SpanFrom(U, l, u) == IF RLe(At(U, l), u) /\ RLt(At(U, l), At(U, l + 1)) THEN l
                     ELSE SpanFrom(U, l - 1, u)
Span(U, p, u) == SpanFrom(U, LastIdx(U, p), u)

\* The p+1 basis functions N_{l-p} .. N_l that live on span l, as polynomials at u
RECURSIVE NTab(_, _, _, _)
NTab(U, l, d, u) ==
  IF d = 0 THEN <<One>>
  ELSE LET M == NTab(U, l, d - 1, u)
       IN Tab(d + 1, LAMBDA r :
            LET i == l - d + r
            IN RAdd(IF r = 0 THEN Zero
                    ELSE RMul(RDiv(RSub(u, At(U, i)), RSub(At(U, i + d), At(U, i))), At(M, r - 1)),
                    IF r = d THEN Zero
                    ELSE RMul(RDiv(RSub(At(U, i + d + 1), u), RSub(At(U, i + d + 1), At(U, i + 1))), At(M, r))))

\* All basis functions at u
NRow(U, p, u) ==
  LET l == Span(U, p, u)
      T == NTab(U, l, p, u)
  IN Tab(LastIdx(U, p) + 1, LAMBDA i : IF i < l - p \/ i > l THEN Zero ELSE At(T, i - (l - p)))

(***************************************************************************)
(* Evaluation.  Win(P, p, l): the control points that matter on span l.    *)
(***************************************************************************)
Win(P, p, l) == Sub(P, l - p, l)

\* Control points of the k-th derivative on span l, from those on the span
RECURSIVE DWin(_, _, _, _, _)
DWin(U, p, l, w, k) ==
  IF k = 0 THEN w
  ELSE LET v == DWin(U, p, l, w, k - 1)
       IN Tab(p - k + 1, LAMBDA r :
            VScale(RDiv(RInt(p - k + 1), RSub(At(U, l + 1 + r), At(U, l - p + r + k))),
                   VSub(At(v, r + 1), At(v, r))))

\* The same with all signs made positive: a bound for rounding errors
RECURSIVE DWinAbs(_, _, _, _, _)
DWinAbs(U, p, l, w, k) ==
  IF k = 0 THEN Tab(Len(w), LAMBDA i : VAbs(At(w, i)))
  ELSE LET v == DWinAbs(U, p, l, w, k - 1)
       IN Tab(p - k + 1, LAMBDA r :
            VScale(RDiv(RInt(p - k + 1), RSub(At(U, l + 1 + r), At(U, l - p + r + k))),
                   VAdd(At(v, r + 1), At(v, r))))

Dim(P) == Len(P[1])

\* k-th derivative of the polynomial that the curve is on span l, at any u
EvalOn(U, p, P, l, u, k) ==
  IF k > p THEN VZero(Dim(P))
  ELSE VComb(NTab(U, l, p - k, u), DWin(U, p, l, Win(P, p, l), k), Dim(P))
EvalAbsOn(U, p, P, l, u, k) ==
  IF k > p THEN VZero(Dim(P))
  ELSE VComb(NTab(U, l, p - k, u), DWinAbs(U, p, l, Win(P, p, l), k), Dim(P))

Eval(U, p, P, u, k)    == EvalOn(U, p, P, Span(U, p, u), u, k)
EvalAbs(U, p, P, u, k) == EvalAbsOn(U, p, P, Span(U, p, u), u, k)

\* The blossom (polar form) of the segment on span l at <<t_1, .., t_p>>
RECURSIVE BlossomStep(_, _, _, _, _, _)
BlossomStep(U, p, l, d, ts, s) ==
  IF s > p THEN d[1]
  ELSE BlossomStep(U, p, l,
         Tab(p + 1 - s, LAMBDA r :
           LET i == l - p + s + r
               w == RDiv(RSub(ts[s], At(U, i)), RSub(At(U, i + p + 1 - s), At(U, i)))
           IN VAdd(VScale(RSub(One, w), At(d, r)), VScale(w, At(d, r + 1)))),
         ts, s + 1)
Blossom(U, p, P, l, ts) == BlossomStep(U, p, l, Win(P, p, l), ts, 1)

(***************************************************************************)
(* Derivative data of all orders.                                          *)
(***************************************************************************)
UStep(U) == Sub(U, 1, Len(U) - 2)
PStep(U, p, Pk, k) ==                            \* order k from order k-1; U of order 0
  Tab(Len(Pk) - 1, LAMBDA i :
    LET w == RSub(At(U, i + p + 1), At(U, i + k))
    IN IF w = Zero THEN VZero(Len(Pk[1]))
       ELSE VScale(RDiv(RInt(p - k + 1), w), VSub(At(Pk, i + 1), At(Pk, i))))
PStepAbs(U, p, Pk, k) ==
  Tab(Len(Pk) - 1, LAMBDA i :
    LET w == RSub(At(U, i + p + 1), At(U, i + k))
    IN IF w = Zero THEN VZero(Len(Pk[1]))
       ELSE VScale(RDiv(RInt(p - k + 1), w), VAdd(At(Pk, i + 1), At(Pk, i))))

RECURSIVE UTower(_, _)
UTower(U, k) == IF k = 0 THEN <<U>>
                ELSE LET t == UTower(U, k - 1) IN Append(t, UStep(t[k]))
RECURSIVE PTower(_, _, _, _)
PTower(U, p, P, k) == IF k = 0 THEN <<P>>
                      ELSE LET t == PTower(U, p, P, k - 1) IN Append(t, PStep(U, p, t[k], k))
RECURSIVE PTowerAbs(_, _, _, _)
PTowerAbs(U, p, P, k) == IF k = 0 THEN <<Tab(Len(P), LAMBDA i : VAbs(At(P, i)))>>
                         ELSE LET t == PTowerAbs(U, p, P, k - 1) IN Append(t, PStepAbs(U, p, t[k], k))

(***************************************************************************)
(* Knot vectors.                                                           *)
(***************************************************************************)
Sorted(U)  == \A i \in 1..(Len(U) - 1) : RLe(U[i], U[i + 1])
Clamped(U, p, a, b) == /\ Len(U) >= 2 * p + 2
                       /\ \A i \in 0..p : At(U, i) = a /\ At(U, Len(U) - 1 - i) = b
\* A knot vector of a curve of degree p on [a, b]: exactly p+1 knots at each end
ValidKnots(U, p, a, b) ==
  /\ Len(U) >= 2 * p + 2
  /\ Sorted(U)
  /\ Clamped(U, p, a, b)
  /\ RLt(At(U, p), At(U, p + 1))
  /\ RLt(At(U, Len(U) - p - 2), At(U, Len(U) - p - 1))
\* Knots whose domain [u_p, u_{n+1}] has a proper span at each end; outside of it they may be
\* any, so that clamped knots are a special case
OpenKnots(U, p) ==
  /\ Len(U) >= 2 * p + 2
  /\ Sorted(U)
  /\ RLt(At(U, p), At(U, p + 1))
  /\ RLt(At(U, Len(U) - p - 2), At(U, Len(U) - p - 1))
\* Vectors with given inner knots s (between 0 and 1) and knots of some style before and
\* behind, moved so that the domain is d
EndStyles == {"clamped", "even", "double"}
Before(p, h, j) ==                              \* distance of the j-th knot before the domain
  CASE h = "clamped" -> Zero [] h = "even" -> Rat(j, 4) [] h = "double" -> Rat((j + 1) \div 2, 3)
Domains == {<<Zero, One>>, <<Rat(-1, 2), Rat(3, 2)>>, <<Rat(1, 8), Rat(7, 8)>>}
OpenVector(p, s, h, t, d) ==
  LET V == Tab(p, LAMBDA j : RNeg(Before(p, h, p - j))) \o <<Zero>> \o s \o <<One>>
             \o Tab(p, LAMBDA j : RAdd(One, Before(p, t, j + 1)))
  IN Tab(Len(V), LAMBDA i : RAdd(d[1], RMul(RSub(d[2], d[1]), At(V, i))))
Mult(U, u) == Cardinality({i \in 1..Len(U) : U[i] = u})
First(U) == U[1]
Last(U)  == U[Len(U)]
\* the affine map taking [a,b] to [c,d]
Rescale(U, a, b, c, d) ==
  Tab(Len(U), LAMBDA i : RAdd(c, RMul(RDiv(RSub(At(U, i), a), RSub(b, a)), RSub(d, c))))
Normalize(U) == Rescale(U, First(U), Last(U), Zero, One)

\* The search for the domain knot nearest to u on a side.  Left: strictly below, if
\* there is none the start of the domain; LeftOrEqual: at or below; Right, RightOrEqual
\* alike, above.  The index is that of a knot of the domain which has a span on its
\* right (Left, LeftOrEqual), or on its left (Right).
FindIndices(U, p, cmp) ==
  LET b == Len(U) - 1 - p
  IN IF cmp \in {"Left", "LeftOrEqual"} THEN p..(b - 1)
     ELSE IF cmp = "Right" THEN (p + 1)..b ELSE p..b
FindKnot(U, p, cmp, u) ==
  LET V == {At(U, j) : j \in {j \in FindIndices(U, p, cmp) :
              CASE cmp = "Left"         -> RLt(At(U, j), u)
                [] cmp = "LeftOrEqual"  -> RLe(At(U, j), u)
                [] cmp = "RightOrEqual" -> RLe(u, At(U, j))
                [] cmp = "Right"        -> RLt(u, At(U, j))}}
      left == cmp \in {"Left", "LeftOrEqual"}
  IN IF V = {} THEN At(U, IF left THEN p ELSE Len(U) - 1 - p)
     ELSE CHOOSE x \in V : \A y \in V : IF left THEN RLe(y, x) ELSE RLe(x, y)

\* The non-empty knot spans
Spans(U, p) == {l \in p..LastIdx(U, p) : RLt(At(U, l), At(U, l + 1))}

(***************************************************************************)
(* Knot insertion (Boehm), splitting, reversal.                            *)
(***************************************************************************)
\* last index l with u_l <= u, for u inside the domain
InsertKnot(U, p, u) == LET l == Span(U, p, u) IN Sub(U, 0, l) \o <<u>> \o Sub(U, l + 1, Len(U) - 1)
InsertPoints(U, p, P, u) ==
  LET l == Span(U, p, u)
  IN Tab(Len(P) + 1, LAMBDA i :
       IF i <= l - p THEN At(P, i)
       ELSE IF i > l THEN At(P, i - 1)
       ELSE LET a == RDiv(RSub(u, At(U, i)), RSub(At(U, i + p), At(U, i)))
            IN IF a = Zero THEN At(P, i - 1)
               ELSE VAdd(VScale(a, At(P, i)), VScale(RSub(One, a), At(P, i - 1))))

\* <<U, P>> with u inserted x times
RECURSIVE InsertUP(_, _, _, _, _)
InsertUP(U, p, P, u, x) ==
  IF x = 0 THEN <<U, P>>
  ELSE InsertUP(InsertKnot(U, p, u), p, InsertPoints(U, p, P, u), u, x - 1)

\* The two parts at u, knots as they are; multiplicity of u at most p
SplitUP(U, p, P, u) ==
  LET f == InsertUP(U, p, P, u, p - Mult(U, u))
      V == f[1]
      R == f[2]
      i == IF p = 0 THEN Span(U, p, u) + 1                          \* first u
           ELSE CHOOSE j \in 1..(Len(V) - 1) : At(V, j) = u /\ At(V, j - 1) # u
  IN << <<Sub(V, 0, i + p - 1) \o <<u>>, Sub(R, 0, i - 1)>>,
        << <<u>> \o Sub(V, i, Len(V) - 1), Sub(R, i - 1, Len(R) - 1)>> >>

MirrorKnots(U) == Rev([i \in 1..Len(U) |-> RSub(One, U[i])])

(***************************************************************************)
(* Merging two clamped curves on [0,1] of the same degree p (Tai et al.).  *)
(* The last p control points of a and the first p of b move by the least   *)
(* total square such that all derivatives of order < p agree at the joint  *)
(* and the curve points at the constrained parameters stay.                *)
(***************************************************************************)
UnitVec(d, i) == Tab(d, LAMBDA j : IF j = i THEN One ELSE Zero)
Identity(d)   == Tab(d, LAMBDA i : UnitVec(d, i))

\* Coefficients of the k-th derivative on span l at u with respect to Win(P, p, l)
DerivRow(U, p, l, u, k) ==
  VComb(NTab(U, l, p - k, u), DWin(U, p, l, Identity(p + 1), k), p + 1)

\* Rows for the 2p unknown shifts
SmoothRow(UA, UB, p, k) ==
  LET ra == DerivRow(UA, p, LastIdx(UA, p), Last(UA), k)
      rb == DerivRow(UB, p, p, First(UB), k)
  IN Sub(ra, 1, p) \o Tab(p, LAMBDA i : RNeg(At(rb, i)))
FixRowA(UA, p, u) == LET N == NRow(UA, p, u) IN Sub(N, Len(N) - p, Len(N) - 1) \o VZero(p)
FixRowB(UB, p, u) == VZero(p) \o Sub(NRow(UB, p, u), 0, p - 1)
MergeRows(UA, UB, p, ca, cb) ==
  Tab(p, LAMBDA k : SmoothRow(UA, UB, p, k))
    \o [i \in 1..Len(ca) |-> FixRowA(UA, p, ca[i])]
    \o [i \in 1..Len(cb) |-> FixRowB(UB, p, cb[i])]
MergeRhs(UA, PA, UB, PB, p, nc) ==
  Tab(p, LAMBDA k : VSub(EvalOn(UB, p, PB, p, First(UB), k),
                         EvalOn(UA, p, PA, LastIdx(UA, p), Last(UA), k)))
    \o [i \in 1..nc |-> VZero(Dim(PA))]
\* [ok, x]: the shifts of the last p points of a, then of the first p points of b
MergeShifts(UA, PA, UB, PB, p, ca, cb) ==
  MinNorm(MergeRows(UA, UB, p, ca, cb), MergeRhs(UA, PA, UB, PB, p, Len(ca) + Len(cb)))
ShiftTail(P, x, p) == LET d == Len(P) - p
                      IN Tab(Len(P), LAMBDA i : IF i < d THEN At(P, i) ELSE VAdd(At(P, i), At(x, i - d)))
ShiftHead(P, x, p) == Tab(Len(P), LAMBDA i : IF i < p THEN VAdd(At(P, i), At(x, p + i)) ELSE At(P, i))

MergeKnots(UA, UB, p) ==
  LET m == LastIdx(UA, p)
  IN Tab(m + 2, LAMBDA i : RMul(Half, At(UA, i)))
       \o Tab(Len(UB) - p - 1, LAMBDA i : RMul(Half, RAdd(One, At(UB, p + 1 + i))))

\* Control points of the merged curve, from the shifted ones
MergePoints(UA, SA, UB, SB, p) ==
  LET m == LastIdx(UA, p)
      V == Tab(Len(UA) + Len(UB) - 2 * p - 1,
               LAMBDA i : IF i <= m + 1 THEN At(UA, i) ELSE RAdd(One, At(UB, i - (m + 1) + p)))
  IN Tab(Len(SA) + Len(SB) - p, LAMBDA i :
       IF i <= m - p + 1 THEN At(SA, i)
       ELSE IF i >= m THEN At(SB, i - m + p - 1)
       ELSE Blossom(UA, p, SA, m, Sub(V, i + 1, i + p)))

(***************************************************************************)
(* Generation of parameters and knots.                                     *)
(***************************************************************************)
EquallySpaced(m) == Tab(m + 1, LAMBDA g : IF g = m THEN One ELSE Rat(g, m))

ClampedKnots(p, n, F(_)) ==                     \* inner knots F(1) .. F(n-p)
  Tab(n + p + 2, LAMBDA i : IF i <= p THEN Zero ELSE IF i > n THEN One ELSE F(i - p))
UniformKnots(p, n) == ClampedKnots(p, n, LAMBDA j : Rat(j, n - p + 1))
AveragingKnots(p, n, t) == ClampedKnots(p, n, LAMBDA j : RDiv(RSum(Sub(t, j, j + p - 1)), RInt(p)))
DeBoorKnots(p, n, t) ==
  ClampedKnots(p, n, LAMBDA j :
    LET jd == RMul(RInt(j), Rat(Len(t), n - p + 1))
        i  == RFloor(jd)
        a  == RSub(jd, RInt(i))
    IN RAdd(RMul(RSub(One, a), At(t, i - 1)), IF a = Zero THEN Zero ELSE RMul(a, At(t, i))))

SqDist(x, y) == LET d == VSub(x, y) IN RDot(d, d)

(***************************************************************************)
(* Least-squares fitting.                                                  *)
(***************************************************************************)
\* kappa-th finite differences of a sequence of vectors
RECURSIVE Diffs(_, _)
Diffs(P, kappa) == IF kappa = 0 THEN P
                   ELSE LET D == Diffs(P, kappa - 1)
                        IN IF Len(D) <= 1 THEN <<>>
                           ELSE Tab(Len(D) - 1, LAMBDA i : VSub(At(D, i + 1), At(D, i)))
\* Transpose of the difference operator applied to D (Len(D) + kappa results)
RECURSIVE DiffsT(_, _, _)
DiffsT(D, kappa, dim) ==
  IF kappa = 0 THEN D
  ELSE LET L == Len(D)
           E == Tab(L + 1, LAMBDA i :
                  VSub(IF i = 0 THEN VZero(dim) ELSE At(D, i - 1),
                       IF i = L THEN VZero(dim) ELSE At(D, i)))
       IN DiffsT(E, kappa - 1, dim)

\* Column-wise:  sum_g N_i(t_g) * r_g  for i in 0..n, N given by its rows
TMul(N, r, dim) ==
  Tab(Len(N[1]), LAMBDA i : VComb([g \in 1..Len(N) |-> N[g][i + 1]], r, dim))

Collocation(U, p, t) == Tab(Len(t), LAMBDA g : NRow(U, p, At(t, g)))

\* Value of the objective: distance to the data, lambda times differences of the points R
SqSum(vs) == RSum([i \in 1..Len(vs) |-> RDot(vs[i], vs[i])])
Residuals(N, P, Q) == Tab(Len(Q), LAMBDA g : VSub(VComb(At(N, g), P, Len(Q[1])), At(Q, g)))
=============================================================================
