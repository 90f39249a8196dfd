------------------------------ MODULE Fitting ------------------------------
(***************************************************************************)
(* Requests to generate knots and curves, the errors that describe         *)
(* impossible ones, and what makes a fit optimal.                          *)
(***************************************************************************)
EXTENDS Curves

Tiny(k) == RDiv(One, RPow(RInt(10), k))

\* Errors that describe a request for degree p and n segments
GenErrs(p, n) ==
  UNION {IF p = 0 THEN {[kind |-> "DegreeTooLow", p |-> 0, limit |-> 0]} ELSE {},
         IF n < p THEN {[kind |-> "DegreeAndSegmentsMismatch", p |-> p, n |-> n]} ELSE {}}

StrictlyIncreasing(t) == \A j \in 1..(Len(t) - 1) : RLt(t[j], t[j + 1])
KnotsOfMethod(m, p, n, t) == IF m = "uniform" THEN UniformKnots(p, n)
                             ELSE IF m = "averaging" THEN AveragingKnots(p, n, t)
                             ELSE DeBoorKnots(p, n, t)

\* t[g+1] - t[g] in the ratio of (squared distance)^(1/w), w = 2 or 4
ByDistance(t, Q, w) ==
  LET m == Len(Q) - 1
      S == Tab(m, LAMBDA g : SqDist(At(Q, g + 1), At(Q, g)))
      D == Tab(m, LAMBDA g : RSub(At(t, g + 1), At(t, g)))
      q == CHOOSE g \in 1..m : \A h \in 1..m : RLe(S[h], S[g])
      lo(x) == RMax(Zero, RSub(x, Tiny(12)))
      hi(x) == RAdd(x, Tiny(12))
      \* x^w * S[q] against y^w * S[g]
  IN \A g \in 1..m :
       /\ RLe(RMul(RPow(lo(D[g]), w), S[q]), RMul(RPow(hi(D[q]), w), S[g]))
       /\ RLe(RMul(RPow(lo(D[q]), w), S[g]), RMul(RPow(hi(D[g]), w), S[q]))

\* Errors that describe a fit of a curve (p, U) to m data segments and mp parameter
\* segments; pen is <<>> or <<lambda, kappa>>
FitErrs(p, U, m, mp, pen, fixed) ==
  LET n == LastIdx(U, p)
      kap(b) == IF b THEN {[kind |-> "RequestedPolynomialSegmentAndPenalizationKappaMismatch", n |-> n, kappa |-> pen[2]]} ELSE {}
      uni == \A j \in 1..Len(U) : RClose(U[j], UniformKnots(p, n)[j], Tiny(15))
  IN UNION {IF n > m THEN {[kind |-> "RequestedPolynomialSegmentAndDataSegementMismatch", n |-> n, m |-> m]} ELSE {},
            IF m # mp THEN {[kind |-> "DataSegmentsAndParameterSegmentsMismatch", m |-> m, mp |-> mp]} ELSE {},
            IF n < p THEN {[kind |-> "RequestedPolynomialSegmentAndSplineDegreeMismatch", n |-> n, p |-> p]} ELSE {},
            IF pen = <<>> THEN {}
            ELSE UNION {kap(IF fixed THEN n < pen[2] + 2 ELSE n < pen[2] + 1),
                        IF RLt(pen[1], Zero) THEN {[kind |-> "NegativeLambda", lambda |-> pen[1]]} ELSE {},
                        IF n >= p /\ RLt(Zero, pen[1]) /\ ~uni THEN {[kind |-> "NonUniformKnots"]} ELSE {}}}

\* The derivative of the objective with respect to the control points free..: a
\* sequence of vectors, and its scale
Gradient(N, P, Q, pen, fixed) ==
  LET dim == Len(Q[1])
      n == Len(P) - 1
      G == TMul(N, Residuals(N, P, Q), dim)
      inner == IF fixed THEN Sub(P, 1, n - 1) ELSE P
      D == IF pen = <<>> THEN <<>> ELSE Diffs(inner, pen[2])
      W == IF D = <<>> THEN [j \in 1..Len(inner) |-> VZero(dim)] ELSE DiffsT(D, pen[2], dim)
      lam == IF pen = <<>> THEN Zero ELSE pen[1]
  IN Tab(Len(inner), LAMBDA j : VAxpy(lam, At(W, j), At(G, IF fixed THEN j + 1 ELSE j)))

\* The value of the objective, over its own free points
Objective(N, P, Q, pen, fixed) ==
  LET inner == IF fixed THEN Sub(P, 1, Len(P) - 2) ELSE P
      D == IF pen = <<>> THEN <<>> ELSE Diffs(inner, pen[2])
  IN RAdd(SqSum(Residuals(N, P, Q)), IF D = <<>> THEN Zero ELSE RMul(pen[1], SqSum(D)))
=============================================================================
