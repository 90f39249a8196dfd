---------------------------- MODULE CurvesTrace -----------------------------
(***************************************************************************)
(* Checks recorded sessions of the implementation against Curves.          *)
(*                                                                         *)
(* A session is a sequence of events; an event is a call with its          *)
(* arguments, its outcome (res, err or values) and, in post, the full      *)
(* state of every register it involved after the call.  The state machine  *)
(* below steps through each session: it applies the operation of the       *)
(* specification to its registers, collects in bad the clauses of the      *)
(* properties that the recorded outcome violates, and continues from the   *)
(* recorded state.  Doubles are taken as the exact numbers they denote, so *)
(* each clause compares an exact result with a rounded one, within a       *)
(* bound on the rounding error that is computed along with it.             *)
(***************************************************************************)
EXTENDS Fitting, TraceIO

CONSTANT Props                         \* ids of the properties to check

VARIABLES sid, i, regs, gh, bad
vars == <<sid, i, regs, gh, bad>>

(***************************************************************************)
(* Tolerances.                                                             *)
(***************************************************************************)
T6 == Tiny(6)
T7 == Tiny(7)
T8 == Tiny(8)
T9 == Tiny(9)
T10 == Tiny(10)
T11 == Tiny(11)
T12 == Tiny(12)
T13 == Tiny(13)
T14 == Tiny(14)
T15 == Tiny(15)

PtsClose(P, Q, T, c) ==                \* every point within c * T (T points)
  /\ Len(P) = Len(Q)
  /\ \A j \in 1..Len(Q) : VClose(P[j], Q[j], VScale(c, T[j]))
PtsWithin(P, Q, tol) ==                \* every point within the vector tol
  /\ Len(P) = Len(Q)
  /\ \A j \in 1..Len(Q) : VClose(P[j], Q[j], tol)
KnotsClose(U, V, t) ==
  /\ Len(U) = Len(V)
  /\ \A j \in 1..Len(V) : RClose(U[j], V[j], t)
SamePattern(U, V) ==                   \* equal knots stay equal, different ones different
  \A j \in 1..(Len(V) - 1) : /\ V[j] = V[j + 1] => U[j] = U[j + 1]
                             /\ RLt(T11, RSub(V[j + 1], V[j])) => RLt(U[j], U[j + 1])
RECURSIVE VMaxAll(_, _, _)
VMaxAll(P, j, acc) == IF j = 0 THEN acc ELSE VMaxAll(P, j - 1, VMax(acc, VAbs(P[j])))
Scale(P) == VMaxAll(P, Len(P), VZero(Len(P[1])))       \* largest magnitude per coordinate
RECURSIVE MinGapTo(_, _, _)
MinGapTo(U, j, g) ==
  IF j = 1 THEN g
  ELSE LET d == RSub(U[j], U[j - 1])
       IN MinGapTo(U, j - 1, IF RLt(Zero, d) /\ RLt(d, g) THEN d ELSE g)
MinGap(U) == MinGapTo(U, Len(U), RSub(Last(U), First(U)))
PFinite(P) == \A j \in 1..Len(P) : VFinite(P[j])

(***************************************************************************)
(* Recorded curves.                                                        *)
(***************************************************************************)
LogShape(c) == /\ c.p >= 0 /\ Len(c.UK) >= 1 /\ Len(c.PK) >= 1 /\ Len(c.PK[1]) >= 1
               /\ Shape(c)
               /\ \A k \in 1..Len(c.UK) : VFinite(c.UK[k]) /\ PFinite(c.PK[k])
LogOK(c) == LogShape(c) /\ N0(c) >= c.p /\ OpenKnots(U0(c), c.p)
LogClamped(c) == LogOK(c) /\ ValidKnots(U0(c), c.p, First(U0(c)), Last(U0(c)))

\* The derivative data agrees with knots and control points
LogCoherent(c) ==
  LET U == U0(c)
      r == RAdd(T11, RDiv(T14, MinGap(U)))
      E == PTower(U, c.p, P0(c), c.p)
      A == PTowerAbs(U, c.p, P0(c), c.p)
  IN /\ \A k \in 1..c.p : KnotsClose(c.UK[k + 1], UStep(c.UK[k]), T14)
     /\ \A k \in 1..c.p : PtsClose(c.PK[k + 1], E[k + 1], A[k + 1], r)

(***************************************************************************)
(* Clauses.                                                                *)
(***************************************************************************)
Cl(id, name, cond) == IF id \notin Props THEN {} ELSE IF cond THEN {} ELSE {<<id, name>>}
\* clauses of property id that make sense only if the call came back without panic
On(id, b, S) == IF id \in Props /\ b THEN S ELSE {}

HasPost(e, s) == \E j \in 1..Len(e.post) : e.post[j].s = s
PostOf(e, s) == e.post[CHOOSE j \in 1..Len(e.post) : e.post[j].s = s].c
Reg(s) == regs[s].c
Known(s) == s \in DOMAIN regs
Usable(s) == Known(s) /\ regs[s].ok
\* what the properties say of clamped curves, C28 says of the others
Tag(s, id) == IF regs[s].opn THEN "C28" ELSE id
TagU(U, p, id) == IF Clamped(U, p, First(U), Last(U)) THEN id ELSE "C28"
\* the curve in register s came about by an operation that property id is about
Has(s, id) == id \in regs[s].by
Attaches(e) == e.api \notin {"merge", "merge_from", "merge_to"}
Unchanged(e, s) == HasPost(e, s) => PostOf(e, s) = Reg(s)

\* --- creation -----------------------------------------------------------
JNew(e) ==
  LET x == DoNew(regs, e)
  IN Cl("C20", "new", e.res = x.res /\ (e.res = "err" => e.err \in x.errs))
     \cup (IF e.res = "ok" /\ HasPost(e, e.s)
           THEN LET c == PostOf(e, e.s)
                IN Cl("C20", "new-content", c.p = e.p /\ c.UK[1] = e.U /\ c.PK[1] = e.P)
           ELSE {})

GoodGenerated(U, p, n, strict) ==
  /\ Len(U) = n + p + 2 /\ VFinite(U)
  /\ Clamped(U, p, Zero, One)
  /\ strict => Sorted(U)
  /\ strict => \A j \in (p + 1)..n : RLt(Zero, At(U, j)) /\ RLt(At(U, j), One)
SpansHit(U, p, t) ==                   \* every span of the domain contains a parameter
  \A l \in p..LastIdx(U, p) :
    \E g \in 1..Len(t) : /\ RLe(RSub(At(U, l), T12), t[g])
                         /\ IF l = LastIdx(U, p) THEN RLe(t[g], One) ELSE RLt(t[g], RAdd(At(U, l + 1), T12))
JKnotsOf(m, p, n, t, U, ID) ==          \* generated knots U
  LET strict == m = "uniform" \/ (StrictlyIncreasing(t) /\ t[1] = Zero /\ Last(t) = One)
      ok == GoodGenerated(U, p, n, strict)
  IN Cl(ID, "knots-valid", ok)
     \cup (IF m = "deboor"
           THEN Cl("C15", "deboor-formula", ok /\ KnotsClose(U, DeBoorKnots(p, n, t), T13))
                \cup Cl("C15", "span-without-parameter", ok /\ (strict => SpansHit(U, p, t)))
           ELSE Cl(ID, "knots-" \o m, ok /\ KnotsClose(U, KnotsOfMethod(m, p, n, t), T13)))
JKnotGen(e) ==
  LET errs == GenErrs(e.p, e.n)
      ID == IF e.method = "deboor" /\ "C15" \in Props THEN "C15" ELSE "C14"
  IN IF errs # {} THEN Cl("C14", "refuse", e.res = "err" /\ e.err \in errs)
     ELSE Cl(ID, "served", e.res = "ok")
          \cup (IF e.res = "ok"
                THEN JKnotsOf(e.method, e.p, e.n, e.t, e.UK[1], ID)
                     \cup Cl(ID, "orders", Len(e.UK) = e.p + 1 /\ e.UK = UTower(e.UK[1], e.p) /\ e.pout = e.p)
                ELSE {})

JManual(e) ==                           \* generate(Manual)
  LET n == Len(e.P) - 1
      errs == UNION {IF n < e.p THEN {[kind |-> "DegreeAndSegmentsMismatch", p |-> e.p, n |-> n]} ELSE {},
                     IF e.km # "manual" THEN GenErrs(e.p, n) ELSE {}}
  IN IF errs # {} THEN Cl("C20", "manual-refuse", e.res = "err" /\ e.err \in errs)
     ELSE Cl("C20", "manual-served", e.res = "ok")
          \cup (IF e.res = "ok" /\ HasPost(e, e.s)
                THEN LET c == PostOf(e, e.s)
                     IN Cl("C20", "manual-content", c.p = e.p /\ c.PK[1] = e.P /\ Len(c.UK) >= 1 /\
                           (IF e.km = "manual" THEN c.UK[1] = e.U
                            ELSE KnotsClose(c.UK[1], KnotsOfMethod(e.km, e.p, n, e.t), T13)))
                        \cup (IF e.km = "manual" THEN {} ELSE JKnotsOf(e.km, e.p, n, e.t, c.UK[1], "C14"))
                ELSE {})

\* --- parameters ---------------------------------------------------------
JParams(e) ==
  LET m == Len(e.Q) - 1
      ok == /\ e.res = "ok" /\ Len(e.t) = m + 1 /\ e.segs = m /\ VFinite(e.t)
            /\ At(e.t, m) = One /\ (m > 0 => At(e.t, 0) = Zero)
  IN Cl("C16", "ends", ok)
     \cup (IF ok /\ m > 0
           THEN Cl("C16", "order", \A g \in 1..m : RLe(e.t[g], RAdd(e.t[g + 1], IF g = m THEN T12 ELSE Zero)))
                \cup Cl("C16", e.method,
                     CASE e.method = "equal" -> KnotsClose(e.t, EquallySpaced(m), T14)
                       [] e.method = "chord" -> ByDistance(e.t, e.Q, 2)
                       [] e.method = "centripetal" -> ByDistance(e.t, e.Q, 4))
           ELSE {})

\* --- evaluation ---------------------------------------------------------
SameU(u, v) == u = v
JEvalQ(e, c, q) ==
  LET inr == InClosed(q.u)
      indom == inr /\ RLe(Lo(c), q.u) /\ RLe(q.u, Hi(c))
      id == Tag(e.s, IF q.k = 0 THEN "C01" ELSE "C02")
      errs == {[kind |-> "ParameterOutOfBounds", u |-> q.u, lo |-> Zero, hi |-> One]}
      U == U0(c)
      value == Eval(U, c.p, P0(c), q.u, q.k)
      bound == IF q.k > c.p THEN VZero(Dim(P0(c)))
               ELSE LET l == Span(U, c.p, q.u) IN Scale(DWinAbs(U, c.p, l, Win(P0(c), c.p, l), q.k))
      good == /\ q.res = "ok" /\ Len(q.v) = Dim(P0(c)) /\ VFinite(q.v)
              /\ VClose(q.v, value, VScale(T11, bound))
      tag == IF q.k > c.p THEN "beyond-degree" ELSE IF q.k = 0 THEN "value" ELSE "derivative"
  IN IF ~inr THEN Cl("C04", "eval-refuse", q.res = "err" /\ q.err \in errs)
     ELSE IF ~indom THEN Cl(Tag(e.s, "C04"), "eval-accept", q.res = "ok")
     ELSE Cl(Tag(e.s, "C04"), "eval-accept", q.res # "err")
          \cup Cl(id, tag, good)
          \cup (IF q.k = 0 /\ ~regs[e.s].opn /\ U[1] = Zero /\ Last(U) = One
                THEN Cl("C01", "start", q.u = Zero =>
                          q.res = "ok" /\ VClose(q.v, P0(c)[1], VScale(T13, VAbs(P0(c)[1]))))
                     \cup Cl("C01", "end", q.u = One =>
                          q.res = "ok" /\ VClose(q.v, Last(P0(c)), VScale(T13, VAbs(Last(P0(c))))))
                ELSE {})
          \cup UNION {Cl(Tag(e.s, x), "evaluate", good) : x \in regs[e.s].by}
JEval(e) ==
  IF ~Usable(e.s) THEN {}
  ELSE UNION {JEvalQ(e, Reg(e.s), e.qs[j]) : j \in 1..Len(e.qs)}

\* --- basis functions ----------------------------------------------------
JBasisQ(e, q) ==
  LET Uk == UTower(e.U, q.k)[q.k + 1]
      d == e.p - q.k
      id == TagU(e.U, e.p, "C03")
      N == NRow(Uk, d, q.u)
      fin == q.res = "ok" /\ Len(q.vs) = LastIdx(Uk, d) + 1 /\ VFinite(q.vs)
  IN Cl(id, "finite", fin)
     \cup (IF fin
           THEN Cl(id, "recurrence", VClose(q.vs, N, VAxpy(T11, N, [j \in 1..Len(N) |-> T15])))
                \cup Cl(id, "negative", \A j \in 1..Len(N) : RLe(RNeg(T15), q.vs[j]))
                \cup Cl(id, "support", \A j \in 0..(Len(N) - 1) :
                       (RLt(q.u, At(Uk, j)) \/ RLt(At(Uk, j + d + 1), q.u)) => At(q.vs, j) = Zero)
                \cup Cl(id, "unity", RClose(RSum(q.vs), One, T11))
           ELSE {})
JBasis(e) == UNION {JBasisQ(e, e.qs[j]) : j \in 1..Len(e.qs)}

\* --- knot search --------------------------------------------------------
FindRight(e, q) ==
  LET Uk == UTower(e.U, q.k)[q.k + 1]
      d == e.p - q.k
  IN /\ q.res = "ok" /\ q.idx \in FindIndices(Uk, d, q.cmp)
     /\ At(Uk, q.idx) = FindKnot(Uk, d, q.cmp, q.u)
JFindQ(e, q) == Cl("C21", q.cmp, FindRight(e, q))
                \cup (IF Clamped(e.U, e.p, First(e.U), Last(e.U)) THEN {} ELSE Cl("C28", q.cmp, FindRight(e, q)))
Within(s, u) == RLe(Lo(Reg(s)), u) /\ RLe(u, Hi(Reg(s)))
JFind(e) ==
  IF "s" \in DOMAIN e
  THEN IF ~Usable(e.s) THEN {}
       ELSE UNION {JFindQ([p |-> Reg(e.s).p, U |-> U0(Reg(e.s))], e.qs[j]) : j \in {j \in 1..Len(e.qs) : Within(e.s, e.qs[j].u)}}
            \cup Cl("C21", "of-curve", e.U = U0(Reg(e.s)) /\ e.p = Reg(e.s).p)
            \cup (IF Has(e.s, "C25")
                  THEN Cl("C25", "find", \A j \in {j \in 1..Len(e.qs) : Within(e.s, e.qs[j].u)} :
                            FindRight([p |-> Reg(e.s).p, U |-> U0(Reg(e.s))], e.qs[j]))
                  ELSE {})
  ELSE UNION {JFindQ(e, e.qs[j]) : j \in 1..Len(e.qs)}

\* --- insertion ----------------------------------------------------------
JInsert(e) ==
  IF ~Usable(e.s) THEN {} ELSE
  LET c  == Reg(e.s)
      p  == c.p
      U  == U0(c)
      inr == InRange(c, e.u)
      m  == Mult(U, e.u)
      fits == m + e.x <= p + 1
      d  == PostOf(e, e.s)
      back == e.res # "panic" /\ LogShape(d)
      y  == Mult(U0(d), e.u) - m                    \* copies actually inserted
      F  == InsertUP(U, p, P0(c), e.u, y)
      small == VScale(T12, Scale(P0(c)))
      knots == d.p = p /\ Len(P0(d)) = Len(P0(c)) + y /\ U0(d) = F[1]
      shape == knots /\ PtsWithin(P0(d), F[2], small)
      \* untouched control points: those whose support does not contain u
      l  == Span(U, p, e.u)
      far == \A j \in 0..N0(c) :
               /\ (j < l - p) => At(P0(d), j) = At(P0(c), j)
               /\ (j > l - m) => At(P0(d), j + y) = At(P0(c), j)
  IN IF e.x = 0 THEN Cl(Tag(e.s, "C05"), "zero-times", e.res = "ok" /\ d = c)
     ELSE IF ~inr
     THEN Cl("C04", "insert-refuse", e.res = "err" /\ e.err \in InsertErrs(c, e.u))
          \cup Cl("C04", "insert-refuse-changed", e.res = "err" => d = c)
     ELSE Cl(Tag(e.s, "C04"), "insert-accept", e.res = "err" => e.err.kind # "OutOfBounds")
          \cup (IF fits
                THEN Cl(Tag(e.s, "C05"), "accept", e.res = "ok")
                     \cup Cl(Tag(e.s, "C06"), "accept", e.res = "ok")
                     \cup (IF e.res # "ok" THEN {}
                           ELSE Cl(Tag(e.s, "C05"), "knots", back /\ y = e.x /\ knots)
                                \cup Cl(Tag(e.s, "C05"), "shape", back /\ y = e.x /\ shape)
                                \cup Cl(Tag(e.s, "C05"), "untouched", back /\ y = e.x /\ knots /\ far))
                     \cup (IF Has(e.s, "C25") THEN Cl("C25", "insert", e.res = "ok" /\ back /\ y = e.x /\ shape) ELSE {})
                     \cup (IF Has(e.s, "C22") THEN Cl(Tag(e.s, "C22"), "insert", e.res = "ok" /\ back /\ y = e.x /\ shape) ELSE {})
                ELSE Cl(Tag(e.s, "C06"), "refuse", /\ e.res = "err" /\ e.err.kind = "MultiplicityError"
                                         /\ e.err.u = e.u /\ e.err.p = p /\ e.err.m \in {m, p + 1})
                     \cup (IF Has(e.s, "C22") THEN Cl(Tag(e.s, "C22"), "insert-refuse", e.res = "err") ELSE {})
                     \cup (IF e.res = "panic" THEN {}
                           ELSE Cl(Tag(e.s, "C06"), "refused-changed", (e.x = 1 \/ m >= p + 1) => d = c)
                                \cup Cl(Tag(e.s, "C06"), "refused-shape", back /\ y >= 0 /\ (y = 0 \/ y + m <= p + 1) /\ shape)))

\* --- splitting ----------------------------------------------------------
JHalf(id, name, d, p, U, P, small, norm) ==   \* d recorded; U, P exact
  LET V == NormIf(norm, U)
      n == Len(U) - 1
  IN LET kn == /\ LogShape(d) /\ d.p = p /\ Len(P0(d)) = Len(P)
               /\ IF norm THEN /\ KnotsClose(U0(d), V, T14) /\ SamePattern(U0(d), V)
                               /\ Clamped(V, p, Zero, One) => Clamped(U0(d), p, Zero, One)
                  ELSE U0(d) = V
     IN Cl(id, name \o "-knots", kn)
        \cup Cl(id, name \o "-shape", kn /\ PtsWithin(P0(d), P, small))
JSplit(e) ==
  IF ~Usable(e.s) THEN {} ELSE
  LET c == Reg(e.s)
      p == c.p
      inr == InRange(c, e.u)
      errs == SplitErrs(c, e.u)
      F == SplitUP(U0(c), p, P0(c), e.u)
      small == VScale(T12, Scale(P0(c)))
      both == e.res = "ok" /\ HasPost(e, e.l) /\ HasPost(e, e.r)
      halves(id) == JHalf(id, "left", PostOf(e, e.l), p, F[1][1], F[1][2], small, e.nl)
                    \cup JHalf(id, "right", PostOf(e, e.r), p, F[2][1], F[2][2], small, e.nr)
  IN Cl(Tag(e.s, "C08"), "source", (e.res # "panic" /\ (e.res = "ok" => e.s \notin {e.l, e.r})) => Unchanged(e, e.s))
     \cup
     IF ~inr THEN Cl("C04", "split-refuse", e.res = "err" /\ e.err \in errs)
                  \cup Cl("C04", "split-refuse-changed", Unchanged(e, e.s))
     ELSE Cl(Tag(e.s, "C04"), "split-accept", e.res = "err" => e.err.kind # "OutOfBounds")
          \cup (IF errs # {}
                THEN Cl(Tag(e.s, "C08"), "refuse", e.res = "err" /\ e.err \in errs)
                     \cup (IF Has(e.s, "C22") THEN Cl(Tag(e.s, "C22"), "split-refuse", e.res = "err") ELSE {})
                ELSE Cl(Tag(e.s, "C08"), "accept", both)
                     \cup (IF both THEN halves(Tag(e.s, "C08")) ELSE {})
                     \cup (IF Has(e.s, "C22")
                           THEN Cl(Tag(e.s, "C22"), "split", both /\ halves(Tag(e.s, "C08")) = {}) ELSE {}))

\* --- reversal -----------------------------------------------------------
JReverse(e) ==
  IF ~Usable(e.s) THEN {} ELSE
  LET c == Reg(e.s)
      d == PostOf(e, e.d)
      x == ReverseCurve(c)
      back == e.res = "ok" /\ HasPost(e, e.d) /\ LogShape(d) /\ d.p = c.p /\ Len(P0(d)) = Len(P0(c))
      r == RAdd(T11, RDiv(T14, MinGap(U0(c))))
      A == PTowerAbs(U0(c), c.p, P0(c), c.p)
  IN Cl(Tag(e.s, "C09"), "knots", back /\ KnotsClose(U0(d), U0(x), T15) /\ SamePattern(U0(d), U0(x)))
     \cup Cl(Tag(e.s, "C09"), "points", back /\ P0(d) = P0(x))
     \cup Cl(Tag(e.s, "C09"), "derivatives", back /\ \A k \in 1..c.p :
                 /\ KnotsClose(d.UK[k + 1], x.UK[k + 1], T14)
                 /\ PtsClose(d.PK[k + 1], x.PK[k + 1], Tab(Len(A[k + 1]), LAMBDA j : At(Rev(A[k + 1]), j)), r))
     \cup Cl(Tag(e.s, "C09"), "source", e.s # e.d => Unchanged(e, e.s))

\* --- derivative curves --------------------------------------------------
JDeriv(e) ==
  IF ~Usable(e.s) THEN {} ELSE
  LET c == Reg(e.s)
      d == PostOf(e, e.d)
      q == c.p - e.k
      back == e.res = "ok" /\ HasPost(e, e.d) /\ d.p = q /\ LogShape(d)
      U == UTower(U0(c), e.k)[e.k + 1]
      E == PTower(U0(c), c.p, P0(c), c.p)
      A == PTowerAbs(U0(c), c.p, P0(c), c.p)
      r == RAdd(T11, RDiv(T14, MinGap(U0(c))))
  IN Cl(Tag(e.s, "C22"), "complete", back)
     \cup Cl(Tag(e.s, "C22"), "knots", back /\ KnotsClose(U0(d), U, T14))
     \cup Cl(Tag(e.s, "C22"), "points", back /\ PtsClose(P0(d), E[e.k + 1], A[e.k + 1], r))
     \cup Cl(Tag(e.s, "C22"), "higher", back /\ \A j \in 1..q : PtsClose(d.PK[j + 1], E[e.k + j + 1], A[e.k + j + 1], r))
     \cup Cl(Tag(e.s, "C22"), "source", e.s # e.d => Unchanged(e, e.s))

\* --- merging ------------------------------------------------------------
\* Rounding of the linear system of the merge, relative to the points involved
MergeTol(a, b) == T9
JMergeOK(e, a, b, d) ==
  LET p == a.p
      m == N0(a)
      back == LogShape(d) /\ d.p = p
      V == MergeKnots(U0(a), U0(b), p)
      kn == back /\ KnotsClose(U0(d), V, T14) /\ SamePattern(U0(d), V) /\ Clamped(U0(d), p, Zero, One)
      F == SplitUP(U0(d), p, P0(d), At(U0(d), m + 1))
      L == F[1][2]
      R == F[2][2]
      sc == VMax(VMax(Scale(Win(P0(a), p, m)), Scale(Win(P0(b), p, p))),
                 Scale(Sub(P0(d), m - p + 1, m)))
      x == MergeCurves(a, b, e.ca, e.cb)
      app == Attaches(e)
      small == VAxpy(MergeTol(a, b), sc, VZero(Len(sc)))
      least == x.ok => /\ kn
                       /\ \A j \in (m - p + 1)..m : VClose(At(L, j), At(x.sa, j), small)
                       /\ \A j \in 0..(p - 1) : VClose(At(R, j), At(x.sb, j), small)
      rest == /\ kn
              /\ Len(P0(d)) = Len(P0(a)) + Len(P0(b)) - p
              /\ \A j \in 0..(m - p) : VClose(At(L, j), At(P0(a), j), VScale(T12, Scale(Sub(P0(a), 0, m - p))))
              /\ \A j \in p..N0(b) : VClose(At(R, j), At(P0(b), j), VScale(T12, Scale(Sub(P0(b), p, N0(b)))))
      \* the conditions on the joint already hold: nothing moves, the halves are the inputs
      smooth == /\ x.ok
                /\ \A j \in (m - p + 1)..m : VClose(At(x.sa, j), At(P0(a), j), VScale(T11, sc))
                /\ \A j \in 0..(p - 1) : VClose(At(x.sb, j), At(P0(b), j), VScale(T11, sc))
  IN Cl("C10", "knots", kn)
     \cup Cl("C10", "rest", rest)
     \cup (IF "C10" \in Props THEN Cl("C10", "restored", smooth => least) ELSE {})
     \cup Cl("C11", "least", least)
     \cup (IF app THEN Cl("C13", "attached", rest /\ least /\ LogClamped(d)) ELSE {})
JMerge(e) ==
  IF ~Known(e.a) \/ ~Known(e.b) THEN {}
  ELSE LET a == Reg(e.a)
           b == Reg(e.b)
           errs == MergeErrs(a, b, Len(e.ca) + Len(e.cb))
           ok == e.res = "ok" /\ HasPost(e, e.d)
           other == {e.a, e.b} \ {e.d}
       IN IF ~regs[e.a].shape \/ ~regs[e.b].shape THEN {}
          ELSE IF errs # {} THEN Cl("C12", "refuse", IF e.api \in {"merge", "merge_from", "merge_to"}
                                                      THEN e.res = "err" /\ e.err \in errs
                                                      ELSE e.res = "panic")     \* append and prepend return no errors
                                 \cup Cl("C12", "inputs", \A s \in {e.a, e.b} : Unchanged(e, s))
          ELSE IF ~regs[e.a].ok \/ ~regs[e.b].ok THEN {}
          ELSE Cl("C12", "accept", ok)
               \cup Cl("C10", "merged", ok)
               \cup (IF Attaches(e) THEN Cl("C13", "merged", ok) ELSE {})
               \cup Cl("C12", "inputs", \A s \in other : Unchanged(e, s))
               \cup Cl("C13", "other", \A s \in other : Unchanged(e, s))
               \cup (IF ok THEN JMergeOK(e, a, b, PostOf(e, e.d)) ELSE {})

\* --- interpolation and fitting ------------------------------------------
Through(U, p, t, P, Q, c) ==                     \* the curve passes through the data
  LET tol == VScale(c, VMax(Scale(P), Scale(Q)))
  IN \A g \in 1..Len(Q) : VClose(Eval(U, p, P, t[g], 0), Q[g], tol)
JInterp(e) ==                                    \* generate(Interpolation)
  LET m == Len(e.Q) - 1
      errs == GenErrs(e.p, m)
      c == PostOf(e, e.s)
      back == e.res = "ok" /\ HasPost(e, e.s) /\ LogOK(c) /\ c.p = e.p
  IN IF errs # {} THEN Cl("C20", "interp-refuse", e.res = "err" /\ e.err \in errs)
     ELSE Cl("C20", "interp-served", e.res = "ok")
          \cup Cl("C17", "count", back /\ Len(P0(c)) = m + 1)
          \cup Cl("C17", "through", back /\ Len(P0(c)) = m + 1 /\
                    Through(U0(c), e.p, EquallySpaced(m), P0(c), e.Q, T8))
JInterpolate(e) ==
  LET m == Len(e.Q) - 1
      back == e.res = "ok" /\ Len(e.P) = m + 1 /\ PFinite(e.P) /\ Len(e.P[1]) = Len(e.Q[1])
  IN Cl(TagU(e.U, e.p, "C17"), "direct-count", back)
     \cup Cl(TagU(e.U, e.p, "C17"), "direct-through", back /\ Through(e.U, e.p, e.t, e.P, e.Q, T8))

JFitted(U, p, t, P, Q, pen, fixed) ==
  LET n == Len(P) - 1
      N == Collocation(U, p, t)
      G == Gradient(N, P, Q, pen, fixed)
      lam == IF pen = <<>> THEN Zero ELSE pen[1]
      id == TagU(U, p, IF lam = Zero THEN "C18" ELSE "C19")
      sc == VScale(RMul(RAdd(One, lam), T8), VScale(RInt(Len(Q)), VMax(Scale(P), Scale(Q))))
      ends == P[1] = Q[1] /\ Last(P) = Last(Q)
  IN (IF fixed THEN Cl(TagU(U, p, "C18"), "ends", ends) \cup Cl(id, "fixed-ends", ends) ELSE {})
     \cup (IF fixed /\ n = 1 THEN {}
           ELSE Cl(id, IF fixed THEN "fixed-optimal" ELSE "optimal",
                   \A j \in 1..Len(G) : VLe(VAbs(G[j]), sc)))
JFit(e) ==
  LET m == Len(e.Q) - 1
      errs == FitErrs(e.p, e.U, m, e.mp, e.pen, e.fixed)
      n == LastIdx(e.U, e.p)
      back == e.res = "ok" /\ Len(e.P) = n + 1 /\ PFinite(e.P) /\ Len(e.P[1]) = Len(e.Q[1])
      id == TagU(e.U, e.p, IF e.pen = <<>> \/ e.pen[1] = Zero THEN "C18" ELSE "C19")
  IN IF errs # {} THEN Cl("C20", "fit-refuse", e.res = "err" /\ e.err \in errs)
     ELSE Cl("C20", "fit-served", e.res = "ok")
          \cup Cl(id, "fitted", back)
          \cup (IF back THEN JFitted(e.U, e.p, e.t, e.P, e.Q, e.pen, e.fixed) ELSE {})
JLsq(e) ==                                       \* generate(LeastSquaresFit)
  LET m == Len(e.Q) - 1
      gerrs == GenErrs(e.p, e.n)
      ferrs == IF gerrs # {} THEN {}
               ELSE FitErrs(e.p, UniformKnots(e.p, e.n), m, m, e.pen, e.fixed)
      c == PostOf(e, e.s)
      back == e.res = "ok" /\ HasPost(e, e.s) /\ LogOK(c) /\ c.p = e.p /\ Len(P0(c)) = e.n + 1
              /\ KnotsClose(U0(c), UniformKnots(e.p, e.n), T14)
      id == IF e.pen = <<>> \/ e.pen[1] = Zero THEN "C18" ELSE "C19"
  IN IF gerrs # {} THEN Cl("C20", "lsq-refuse", e.res = "err" /\ e.err \in gerrs)
     ELSE IF ferrs # {} THEN Cl("C20", "lsq-refuse-fit",
               e.res = "err" /\ e.err.kind = "FitError" /\ e.err.err \in ferrs)
     ELSE Cl("C20", "lsq-served", e.res = "ok")
          \cup Cl(id, "generated", back)
          \cup (IF back THEN JFitted(U0(c), e.p, EquallySpaced(m), P0(c), e.Q, e.pen, e.fixed) ELSE {})

\* --- knot vector queries and maps ---------------------------------------
JKq(e) ==
  LET U == e.U
      p == e.p
      n == LastIdx(U, p)
      uni == p > 0 /\ \A j \in 1..Len(U) : RClose(U[j], UniformKnots(p, n)[j], T15)
      back == e.res = "ok"
      inner == Sub(U, p + 1, n)
      domain == Sub(U, p, n + 1)
  IN Cl("C23", "counts", back /\ /\ e.deg = p /\ e.seg = n /\ e.maxd = p
                                 /\ e.inner_count = n - p /\ e.domain_count = n - p + 2
                                 /\ Len(e.segs) = p + 1 /\ Len(e.lens) = p + 1
                                 /\ \A k \in 0..p : /\ e.segs[k + 1] = n
                                                    /\ e.lens[k + 1] = Len(U) - 2 * k)
     \cup Cl("C23", "views", back /\ /\ e.inner = inner
                                     /\ e.inner_at = inner /\ e.domain_at = domain
                                     /\ Len(e.domains) = p + 1
                                     /\ \A k \in 0..p : e.domains[k + 1] = domain)
     \cup Cl("C23", "multiplicity", back /\ \A j \in 1..Len(e.mults) :
              (RLt(At(U, p), e.mults[j].u) /\ RLt(e.mults[j].u, At(U, n + 1)))
                => e.mults[j].m = Mult(Sub(U, p, n + 1), e.mults[j].u))
     \cup Cl("C23", "predicates", back /\
              /\ e.sorted = Sorted(U)
              /\ e.clamped = (Len(U) >= 2 * p + 2 /\ Clamped(U, p, Zero, One))
              /\ e.normed = (/\ \E j \in 1..Len(U) : U[j] = Zero
                             /\ \E j \in 1..Len(U) : U[j] = One
                             /\ \A j \in 1..Len(U) : RLe(Zero, U[j]) /\ RLe(U[j], One)))
     \cup Cl("C23", "uniform", back /\ IF p = 0 THEN e.uniform = "err"
                    \* the generated ones are; others up to the last bit may be or not
                    ELSE e.uniform = "no" \/ (e.uniform = "yes" /\ uni))
     \cup Cl("C23", "uniform", back /\ (e.own /\ p > 0 => e.uniform = "yes"))
JKmap(e) ==
  LET T == UTower(e.U, e.p)
      back == e.res = "ok" /\ Len(e.UK) = e.p + 1
      a == IF e.kind = "normalize" THEN First(e.U) ELSE e.old[1]
      b == IF e.kind = "normalize" THEN Last(e.U) ELSE e.old[2]
      c == IF e.kind = "normalize" THEN Zero ELSE e.new[1]
      d == IF e.kind = "normalize" THEN One ELSE e.new[2]
      X(k) == Rescale(T[k + 1], a, b, c, d)
      mag == RAdd(RMul(RAdd(RMaxAbs(e.U), RAdd(RAbs(a), RAbs(b))), RAbs(RDiv(RSub(d, c), RSub(b, a)))),
                  RAdd(RAbs(c), RAbs(d)))
  IN Cl("C23", e.kind, back /\ \A k \in 0..e.p :
          /\ KnotsClose(e.UK[k + 1], X(k), RMul(T14, mag))
          /\ \A j \in 1..(Len(X(k)) - 1) : (X(k)[j] = X(k)[j + 1]) => e.UK[k + 1][j] = e.UK[k + 1][j + 1]
          /\ RLt(c, d) /\ RLt(a, b) => Sorted(e.UK[k + 1])
          /\ e.kind = "normalize" => \A j \in 1..Len(X(k)) : X(k)[j] \in {Zero, One} => e.UK[k + 1][j] = X(k)[j])
     \cup Cl("C23", "bare", back /\
          LET N == Rescale(e.U, First(e.U), Last(e.U), Zero, One)
              t == RMul(T14, RAdd(One, RDiv(RMaxAbs(e.U), RSub(Last(e.U), First(e.U)))))
          IN e.kept /\ KnotsClose(e.copy, N, t) /\ e.bare = e.copy)

\* --- the same on each coordinate alone ------------------------------------
JTwinOut(e, o) ==
  LET dim == Len(e.sc)
  IN \A c \in 1..dim :
       LET want == [j \in 1..Len(o.R) |->
                      RAdd(RMul(e.sc[c], o.R[j][c]), IF o.aff = 1 THEN e.sh[c] ELSE Zero)]
           big == RAdd(RMul(RAbs(e.sc[c]), RMaxAbs([j \in 1..Len(o.R) |-> o.R[j][c]])),
                       RMul(o.amp, RAdd(RAbs(e.sh[c]), RAbs(RMul(e.sc[c], e.mag[c])))))
           tol == RMul(T10, big)
       IN Len(o.S[c]) = Len(o.R) /\ VFinite(o.S[c]) /\ \A j \in 1..Len(o.R) : RClose(o.S[c][j], want[j], tol)
JTwin(e) ==
  Cl("C24", "finished", e.res = "ok")
  \cup (IF e.res = "ok"
        THEN Cl("C24", "knots", \A c \in 1..Len(e.US) : e.US[c] = e.UR)
             \cup UNION {Cl("C24", e.outs[j].name, JTwinOut(e, e.outs[j])) : j \in 1..Len(e.outs)}
        ELSE {})

\* --- edited and recombined curves -----------------------------------------
JWhole(d, p, U, P) ==                            \* d is the curve of U and P, in every order
  /\ LogShape(d) /\ d.p = p /\ U0(d) = U /\ P0(d) = P
  /\ LogOK(d) => LogCoherent(d)
JEdit(e) ==
  IF ~Usable(e.s) THEN {}
  ELSE LET c == Reg(e.s)
           U == IF "U" \in DOMAIN e THEN e.U ELSE U0(c)
           P == IF "P" \in DOMAIN e THEN e.P ELSE P0(c)
       IN Cl("C25", "edited", e.res = "ok" /\ JWhole(PostOf(e, e.s), c.p, U, P))
JRebuild(e) ==
  IF ~Usable(e.a) \/ ~Usable(e.b) THEN {}
  ELSE LET a == Reg(e.a)
           b == Reg(e.b)
           x == DoRebuild([s \in {e.a, e.b} |-> Reg(s)], e)
       IN IF x.res = "err" THEN Cl("C25", "refused", e.res = "err" /\ e.err \in x.errs)
          ELSE Cl("C25", "recombined", e.res = "ok" /\ HasPost(e, e.d) /\ JWhole(PostOf(e, e.d), a.p, U0(a), P0(b)))
               \cup Cl("C25", "source", \A s \in {e.a, e.b} \ {e.d} : Unchanged(e, s))

\* --- what curves and points report of themselves ---------------------------
JCurveQueries(e) ==
  IF ~Usable(e.s) THEN {}
  ELSE LET c == Reg(e.s)
           n == N0(c)
       IN Cl("C26", "curve", /\ e.res = "ok"
                             /\ e.deg = c.p /\ e.seg = n /\ e.dim = Dim(P0(c))
                             /\ e.maxd = c.p /\ e.kmax = c.p /\ e.pmax = c.p)
          \cup Cl("C26", "points", /\ e.res = "ok"
                                   /\ e.count = n + 1 /\ e.pseg = n /\ e.kseg = n /\ e.pdim = Dim(P0(c))
                                   /\ e.empty = FALSE /\ e.pts = P0(c)
                                   /\ e.counts = Tab(c.p + 1, LAMBDA k : n + 1 - k))
Halves(x, l, r) == [j \in 1..Len(x) |-> IF j >= l /\ j <= r THEN Half ELSE x[j]]
JPointQueries(e) ==
  LET Q == e.Q
      m == Len(Q)
      x == [j \in 1..m |-> Q[j][1]]
      R == Rev(Q)
      back == e.res = "ok"
  IN Cl("C26", "container", back /\ /\ e.dim = Dim(Q) /\ e.count = m /\ e.seg = m - 1 /\ e.empty = FALSE
                                    /\ e.pts = Q /\ e.mat = Q)
     \cup Cl("C26", "no-points", back /\ e.nodim = Dim(Q) /\ e.nocount = 0 /\ e.noempty)
     \cup Cl("C26", "reversed", back /\ e.rev = R)
     \cup Cl("C26", "set", back /\ e.put = [R EXCEPT ![e.i + 1] = [c \in 1..Dim(Q) |-> Half]])
     \cup Cl("C26", "parts", back /\ /\ e.head = Sub(x, 0, e.n - 1) /\ e.tail = Sub(x, m - e.n, m - 1)
                                      /\ e.mid = Sub(x, e.i, m - 1)
                                      /\ e.headmut = Halves(x, 1, e.n)
                                      /\ e.tailmut = Halves(x, m - e.n + 1, m)
                                      /\ e.midmut = Halves(x, e.i + 1, e.i + 1))
     \cup Cl("C26", "counts", back /\ e.par = x /\ e.parseg = e.n /\ e.con = m /\ e.conseg = m - 1)

\* --- two sessions at a time --------------------------------------------------
JPair(e) ==
  Cl("C27", "interleaved", e.IA = e.A /\ e.IB = e.B)
  \cup Cl("C27", "concurrent", e.TA = e.A /\ e.TB = e.B)
  \cup Cl("C27", "other-changed", e.changed = 0)
  \cup Cl("C27", "on-copies", e.copies = 0)
  \cup (IF "PA" \in DOMAIN e THEN Cl("C27", "own-process", e.PA = e.A /\ e.PB = e.B) ELSE {})

\* --- every event ----------------------------------------------------------
Judge(e) ==
  CASE e.op = "new"      -> JNew(e)
    [] e.op = "manual"   -> JManual(e)
    [] e.op = "interp"   -> JInterp(e)
    [] e.op = "interpolate" -> JInterpolate(e)
    [] e.op = "lsq"      -> JLsq(e)
    [] e.op = "fit"      -> JFit(e)
    [] e.op = "eval"     -> JEval(e)
    [] e.op = "basis"    -> JBasis(e)
    [] e.op = "find"     -> JFind(e)
    [] e.op = "insert"   -> JInsert(e)
    [] e.op = "split"    -> JSplit(e)
    [] e.op = "reverse"  -> JReverse(e)
    [] e.op = "deriv"    -> JDeriv(e)
    [] e.op = "merge"    -> JMerge(e)
    [] e.op = "params"   -> JParams(e)
    [] e.op = "knotgen"  -> JKnotGen(e)
    [] e.op = "kq"       -> JKq(e)
    [] e.op = "kmap"     -> JKmap(e)
    [] e.op = "twin"     -> JTwin(e)
    [] e.op = "edit"     -> JEdit(e)
    [] e.op = "rebuild"  -> JRebuild(e)
    [] e.op = "cq"       -> JCurveQueries(e)
    [] e.op = "pq"       -> JPointQueries(e)
    [] e.op = "pair"     -> JPair(e)
    [] e.op = "nop"      -> {}

(***************************************************************************)
(* History (C07): well-formedness of every curve that comes back, and      *)
(* agreement with the reference curve the ghost remembers.                 *)
(***************************************************************************)
Posts(e) == IF "post" \in DOMAIN e THEN {e.post[j] : j \in 1..Len(e.post)} ELSE {}
Raw(e) == "raw" \in DOMAIN e                     \* deliberately unclamped knots
GhostOK(c, g) ==
  LET U == U0(c)
      ls == {l \in Spans(U, c.p) : RLt(T6, RSub(At(U, l + 1), At(U, l)))}
      tol == VScale(T9, Scale(g.P))
      m(l) == RMul(Half, RAdd(At(U, l), At(U, l + 1)))
      x(l) == RAdd(g.a, RMul(g.b, m(l)))
  IN Dim(P0(c)) = Dim(g.P) /\ c.p = g.p /\
     \A l \in ls : (RLe(First(g.U), x(l)) /\ RLe(x(l), Last(g.U)))
                     /\ VClose(Eval(U, c.p, P0(c), m(l), 0), RefEval(g, m(l)), tol)

Moves(e) == e.op \in {"insert", "split", "reverse"}
NewGhosts(e) ==
  IF Moves(e) /\ Usable(e.s) /\ e.res = "ok" THEN DoGhost([s \in DOMAIN regs |-> Reg(s)], gh, e, <<>>)
  ELSE IF e.op = "insert" /\ Usable(e.s) THEN e.s :> gh[e.s]     \* refused: same shape
  ELSE <<>>
JHistory(e) ==
  IF Props \cap {"C07", "C28"} = {} THEN {}
  ELSE UNION {
    LET c == q.c
        G == NewGhosts(e)
        from == e.op \in {"insert", "split", "reverse", "deriv"} /\ Usable(e.s)
        id == IF from THEN Tag(e.s, "C07")
              ELSE IF LogShape(c) THEN TagU(U0(c), c.p, "C07") ELSE "C07"
    IN Cl(id, "well-formed", Raw(e) \/ (IF id = "C07" THEN LogClamped(c) ELSE LogOK(c)))
       \cup (IF LogOK(c) THEN Cl(id, "coherent", LogCoherent(c)) ELSE {})
       \cup (IF LogOK(c) /\ q.s \in DOMAIN G THEN Cl(id, "same-shape", GhostOK(c, G[q.s])) ELSE {})
    : q \in {q \in Posts(e) : ~Known(q.s) \/ Reg(q.s) # q.c}}
  \cup IF e.op \in {"insert", "split", "reverse", "deriv"} /\ Usable(e.s) /\ e.res = "panic"
       THEN Cl(Tag(e.s, "C07"), "panic", FALSE) ELSE {}

(***************************************************************************)
(* The state machine.                                                      *)
(***************************************************************************)
\* the properties that speak of the curve in register s after event e: of the
\* operation it is a result of, and of the ones that led there
Origin(e, s) ==
  LET was(z) == IF Known(z) THEN regs[z].by ELSE {}
      lsq == IF e.pen = <<>> \/ e.pen[1] = Zero THEN "C18" ELSE "C19"
  IN CASE e.op = "insert"  -> IF e.res = "panic" THEN was(s) ELSE was(s) \cup {"C05", "C06", "C07"}
       [] e.op = "split"   -> IF s \in {e.l, e.r} /\ e.res = "ok" THEN was(e.s) \cup {"C07", "C08"} ELSE was(s)
       [] e.op = "reverse" -> IF s = e.d THEN was(e.s) \cup {"C07", "C09"} ELSE was(s)
       [] e.op = "deriv"   -> IF s = e.d THEN was(e.s) \cup {"C07", "C22"} ELSE was(s)
       [] e.op = "merge"   -> IF s = e.d /\ e.res = "ok"
                              THEN {"C07", "C10", "C11"} \cup (IF Attaches(e) THEN {"C13"} ELSE {})
                              ELSE was(s)
       [] e.op = "edit"    -> was(s) \cup {"C25"}
       [] e.op = "rebuild" -> IF s = e.d THEN {"C25"} ELSE was(s)
       [] e.op = "interp"  -> {"C17"}
       [] e.op = "lsq"     -> {lsq}
       [] e.op \in {"new", "manual"} -> {}
       [] OTHER            -> was(s)
MkReg(e, q) == [c |-> q.c, shape |-> LogShape(q.c), ok |-> LogOK(q.c),
                opn |-> LogOK(q.c) /\ ~LogClamped(q.c),
                by |-> Origin(e, q.s)]
Init == /\ sid \in 1..SessionCount
        /\ i = 0 /\ regs = <<>> /\ gh = <<>> /\ bad = {}
Next == /\ i < SessionLen(sid)
        /\ bad = {}
        /\ LET e == EventAt(sid, i + 1)
               new == [s \in {q.s : q \in Posts(e)} |->
                        MkReg(e, CHOOSE q \in Posts(e) : q.s = s)]
               changed == {s \in DOMAIN new : ~Known(s) \/ regs[s] # new[s]}
               G == NewGhosts(e)
           IN /\ i' = i + 1
              /\ bad' = TLCEval(Judge(e) \cup JHistory(e))
              /\ regs' = TLCEval([s \in changed |-> new[s]] @@ regs)
              /\ gh' = TLCEval([s \in {s \in changed : new[s].ok} |->
                                IF s \in DOMAIN G THEN G[s] ELSE NewGhost(new[s].c)] @@ gh)
              /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars

View == <<sid, i, bad>>
Conforms == bad = {}
Alias == [sid |-> sid, i |-> i, bad |-> bad]
=============================================================================
