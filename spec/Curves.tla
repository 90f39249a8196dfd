------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* The library as a state machine over a register file of curves.          *)
(*                                                                         *)
(* A curve is [p, UK, PK] as in the implementation: its degree, and the    *)
(* knot vectors and control points of all derivative orders 0..p           *)
(* (UK[k+1], PK[k+1]).  UK[1] and PK[1] define the curve; the others are   *)
(* data that every operation has to keep coherent with them (Coherent).    *)
(*                                                                         *)
(* An operation is a record o with field op and its arguments; Do(sl, o)   *)
(* is its effect on the register file sl: a record with                    *)
(*   res   "ok" or "err"                                                   *)
(*   errs  the errors that describe the call (any one may be reported)     *)
(*   post  the registers written, as a function                            *)
(*   val   the value returned (evaluation)                                 *)
(***************************************************************************)
EXTENDS BSpline

U0(c)   == c.UK[1]
P0(c)   == c.PK[1]
N0(c)   == Len(P0(c)) - 1
MkCurve(p, U, P) == [p |-> p, UK |-> UTower(U, p), PK |-> PTower(U, p, P, p)]

\* The domain of the curve
Lo(c) == At(U0(c), c.p)
Hi(c) == At(U0(c), Len(U0(c)) - 1 - c.p)

\* where knots can be inserted and curves be split: inside (0,1) and the domain of the curve
RangeLo(c)    == RMax(Zero, Lo(c))
RangeHi(c)    == RMin(One, Hi(c))
InRange(c, u) == Finite(u) /\ RLt(RangeLo(c), u) /\ RLt(u, RangeHi(c))
InClosed(u) == Finite(u) /\ RLe(Zero, u) /\ RLe(u, One)

(***************************************************************************)
(* State predicates.                                                       *)
(***************************************************************************)
Shape(c) ==                                   \* sizes fit together
  /\ Len(c.UK) = c.p + 1 /\ Len(c.PK) = c.p + 1
  /\ \A k \in 0..c.p : /\ Len(c.UK[k + 1]) = Len(P0(c)) + c.p + 1 - 2 * k
                       /\ Len(c.PK[k + 1]) = Len(P0(c)) - k
                       /\ \A i \in 1..Len(c.PK[k + 1]) : Len(c.PK[k + 1][i]) = Dim(P0(c))
WellFormed(c) == /\ N0(c) >= c.p
                 /\ Shape(c)
                 /\ ValidKnots(U0(c), c.p, First(U0(c)), Last(U0(c)))
OpenFormed(c) == N0(c) >= c.p /\ Shape(c) /\ OpenKnots(U0(c), c.p)      \* not clamped, perhaps
Coherent(c) == c = MkCurve(c.p, U0(c), P0(c))

(***************************************************************************)
(* Operations.                                                             *)
(***************************************************************************)
OK(post)        == [res |-> "ok", errs |-> {}, post |-> post, val |-> <<>>]
OKVal(v)        == [res |-> "ok", errs |-> {}, post |-> <<>>, val |-> v]
Err(errs)       == [res |-> "err", errs |-> errs, post |-> <<>>, val |-> <<>>]
ErrPost(e, post) == [res |-> "err", errs |-> e, post |-> post, val |-> <<>>]

\* Creation from knots and control points
DoNew(sl, o) ==
  LET n == Len(o.P) - 1
  IN IF n < o.p THEN Err({[kind |-> "DegreeAndSegmentsMismatch", p |-> o.p, n |-> n]})
     ELSE OK(o.s :> MkCurve(o.p, o.U, o.P))

\* Value of the k-th derivative
DoEval(sl, o) ==
  LET c == sl[o.s]
  IN IF ~InClosed(o.u)
     THEN Err({[kind |-> "ParameterOutOfBounds", u |-> o.u, lo |-> Zero, hi |-> One]})
     ELSE OKVal(Eval(U0(c), c.p, P0(c), o.u, o.k))

\* x-fold knot insertion: as many as fit below multiplicity p+1
InsertErrs(c, u) ==
  IF ~InRange(c, u) THEN {[kind |-> "OutOfBounds", u |-> u, lo |-> RangeLo(c), hi |-> RangeHi(c)]}
  ELSE IF Mult(U0(c), u) > c.p THEN {[kind |-> "MultiplicityError", u |-> u, m |-> Mult(U0(c), u), p |-> c.p]}
  ELSE {}
InsertOne(c, u) == LET f == InsertUP(U0(c), c.p, P0(c), u, 1) IN MkCurve(c.p, f[1], f[2])
RECURSIVE InsertMany(_, _, _)
InsertMany(c, u, x) ==                         \* <<curve, errors>>
  IF x = 0 THEN <<c, {}>>
  ELSE IF InsertErrs(c, u) # {} THEN <<c, InsertErrs(c, u)>>
  ELSE InsertMany(InsertOne(c, u), u, x - 1)
DoInsert(sl, o) ==
  LET r == InsertMany(sl[o.s], o.u, o.x)
  IN IF r[2] = {} THEN OK(o.s :> r[1]) ELSE ErrPost(r[2], o.s :> r[1])

\* Splitting at u; nl, nr: normalise the left, right part
SplitErrs(c, u) ==
  IF ~InRange(c, u) THEN {[kind |-> "OutOfBounds", u |-> u, lo |-> RangeLo(c), hi |-> RangeHi(c)]}
  ELSE IF Mult(U0(c), u) > c.p
       THEN {[kind |-> "MultiplicityTooHigh", u |-> u, p |-> c.p, m |-> Mult(U0(c), u)]}
  ELSE {}
NormIf(b, U) == IF b THEN Normalize(U) ELSE U
DoSplit(sl, o) ==
  LET c == sl[o.s]
  IN IF SplitErrs(c, o.u) # {} THEN Err(SplitErrs(c, o.u))
     ELSE LET f == SplitUP(U0(c), c.p, P0(c), o.u)
          IN OK((o.l :> MkCurve(c.p, NormIf(o.nl, f[1][1]), f[1][2])) @@
                (o.r :> MkCurve(c.p, NormIf(o.nr, f[2][1]), f[2][2])))

\* Reversal, in place on the data of all orders
ReverseCurve(c) ==
  [p  |-> c.p,
   UK |-> Tab(c.p + 1, LAMBDA k : MirrorKnots(c.UK[k + 1])),
   PK |-> Tab(c.p + 1, LAMBDA k :
            LET R == Rev(c.PK[k + 1])
            IN IF k % 2 = 0 THEN R ELSE [i \in 1..Len(R) |-> VScale(RInt(-1), R[i])])]
DoReverse(sl, o) == OK(o.d :> ReverseCurve(sl[o.s]))

\* The curve of the k-th derivative
DoDeriv(sl, o) ==
  LET c == sl[o.s]
  IN OK(o.d :> MkCurve(c.p - o.k, c.UK[o.k + 1], c.PK[o.k + 1]))

\* Merging a and b into d with constrained parameters ca of a and cb of b
MergeErrs(a, b, nc) ==
  UNION { IF a.p # b.p THEN {[kind |-> "DegreeMismatch", left |-> a.p, right |-> b.p]} ELSE {},
          IF Dim(P0(a)) # Dim(P0(b))
          THEN {[kind |-> "DimensionMismatch", left |-> Dim(P0(a)), right |-> Dim(P0(b))]} ELSE {},
          IF \E c \in {a, b} : ~Clamped(U0(c), c.p, Zero, One) THEN {[kind |-> "UnclampedCurve"]} ELSE {},
          IF \E c \in {a, b} : \/ \E i \in DOMAIN U0(c) : RLt(U0(c)[i], Zero) \/ RLt(One, U0(c)[i])
                               \/ ~(\E i \in DOMAIN U0(c) : U0(c)[i] = Zero)
                               \/ ~(\E i \in DOMAIN U0(c) : U0(c)[i] = One)
          THEN {[kind |-> "UnnormedCurve"]} ELSE {},
          IF nc >= a.p \/ nc >= b.p
          THEN {[kind |-> "TooManyConstraints", total |-> nc, degree |-> p] : p \in {a.p, b.p}} ELSE {} }
MergeCurves(a, b, ca, cb) ==                   \* [ok, c, sa, sb]
  LET p  == a.p
      sh == MergeShifts(U0(a), P0(a), U0(b), P0(b), p, ca, cb)
  IN IF ~sh.ok THEN [ok |-> FALSE]
     ELSE LET sa == ShiftTail(P0(a), sh.x, p)
              sb == ShiftHead(P0(b), sh.x, p)
          IN [ok |-> TRUE, sa |-> sa, sb |-> sb,
              c  |-> MkCurve(p, MergeKnots(U0(a), U0(b), p), MergePoints(U0(a), sa, U0(b), sb, p))]
DoMerge(sl, o) ==
  LET a == sl[o.a]
      b == sl[o.b]
      e == MergeErrs(a, b, Len(o.ca) + Len(o.cb))
  IN IF e # {} THEN Err(e)
     ELSE LET m == MergeCurves(a, b, o.ca, o.cb)
          IN IF m.ok THEN OK(o.d :> m.c) ELSE Err({})

\* The knots or points changed by hand, the rest recomputed
DoEdit(sl, o) ==
  LET c == sl[o.s]
  IN OK(o.s :> MkCurve(c.p, IF "U" \in DOMAIN o THEN o.U ELSE U0(c), IF "P" \in DOMAIN o THEN o.P ELSE P0(c)))
\* A curve with the knots of a and the points of b
DoRebuild(sl, o) ==
  LET p == sl[o.a].p
      n == N0(sl[o.b])
  IN IF n < p THEN Err({[kind |-> "DegreeAndSegmentsMismatch", p |-> p, n |-> n]})
     ELSE OK(o.d :> MkCurve(p, U0(sl[o.a]), P0(sl[o.b])))

Do(sl, o) ==
  CASE o.op = "new"     -> DoNew(sl, o)
    [] o.op = "eval"    -> DoEval(sl, o)
    [] o.op = "insert"  -> DoInsert(sl, o)
    [] o.op = "split"   -> DoSplit(sl, o)
    [] o.op = "reverse" -> DoReverse(sl, o)
    [] o.op = "deriv"   -> DoDeriv(sl, o)
    [] o.op = "merge"   -> DoMerge(sl, o)
    [] o.op = "edit"    -> DoEdit(sl, o)
    [] o.op = "rebuild" -> DoRebuild(sl, o)

(***************************************************************************)
(* What a register denotes.  A ghost [U, p, P, a, b] says that the curve   *)
(* in the register takes at u the value of the reference curve (U, p, P)   *)
(* at a + b u; insertion, splitting and reversal must respect it.          *)
(***************************************************************************)
NewGhost(c) == [p |-> c.p, U |-> U0(c), P |-> P0(c), a |-> Zero, b |-> One]
\* the ghost after substituting u := a + b u'
Subst(g, a, b) == [g EXCEPT !.a = RAdd(g.a, RMul(g.b, a)), !.b = RMul(g.b, b)]
\* ghosts of the registers written by o (a successful operation)
DoGhost(sl, gh, o, post) ==
  CASE o.op = "insert"  -> o.s :> gh[o.s]
    [] o.op = "reverse" -> o.d :> Subst(gh[o.s], One, RInt(-1))
    [] o.op = "split"   ->
         LET c == sl[o.s]
         IN (o.l :> IF o.nl THEN Subst(gh[o.s], First(U0(c)), RSub(o.u, First(U0(c)))) ELSE gh[o.s]) @@
            (o.r :> IF o.nr THEN Subst(gh[o.s], o.u, RSub(Last(U0(c)), o.u)) ELSE gh[o.s])
    [] OTHER -> [s \in DOMAIN post |-> NewGhost(post[s])]

\* Value and left/right choice of the reference at the parameter of u: inside spans only
RefEval(g, u) == Eval(g.U, g.p, g.P, RAdd(g.a, RMul(g.b, u)), 0)

(***************************************************************************)
(* Two curves are the same on a common non-empty interval [x, y] without   *)
(* knots inside if they agree at p+1 points of it.                         *)
(***************************************************************************)
Between(x, y, j, d) == RAdd(x, RMul(Rat(2 * j + 1, 2 * d), RSub(y, x)))   \* j in 0..d-1
\* g and c agree everywhere
Denotes(c, g) ==
  LET kn == {U0(c)[i] : i \in DOMAIN U0(c)}
            \cup {RDiv(RSub(g.U[i], g.a), g.b) : i \in DOMAIN g.U}
      dom == {x \in kn : RLe(Lo(c), x) /\ RLe(x, Hi(c))}
      nxt(x) == CHOOSE y \in dom : RLt(x, y) /\ \A z \in dom : RLt(x, z) => RLe(y, z)
  IN \A x \in dom \ {Hi(c)} :
       \A j \in 0..c.p :
         LET u == Between(x, nxt(x), j, c.p + 1)
         IN Eval(U0(c), c.p, P0(c), u, 0) = RefEval(g, u)
=============================================================================
