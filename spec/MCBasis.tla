------------------------------- MODULE MCBasis -------------------------------
(***************************************************************************)
(* Basis functions, evaluation, knot search and knot queries on every      *)
(* clamped knot vector with inner knots on a grid, or (Open) on every such *)
(* vector with other knots before or behind the domain.                    *)
(***************************************************************************)
EXTENDS Fitting, TraceIO

CONSTANTS Degrees, InnerMax, Den,       \* inner knots: at most InnerMax multiples of 1/Den
          Fine,                         \* parameters: multiples of 1/(Den*Fine)
          Open,                         \* knots that are not clamped
          Out                           \* what is exported

VARIABLES p, k, U
vars == <<p, k, U>>

Inside == {Rat(j, Den) : j \in 1..(Den - 1)}
RECURSIVE Inner(_)
Inner(c) == IF c = 0 THEN {<<>>}
            ELSE {s \o <<x>> : s \in Inner(c - 1), x \in Inside}
Init == p \in Degrees /\ k \in 0..InnerMax /\ U = <<>>
Next == /\ U = <<>>
        /\ \E s \in Inner(k) :
             /\ Sorted(s)
             /\ \A x \in Inside : Mult(s, x) <= p + 1
             /\ IF ~Open THEN U' = VZero(p + 1) \o s \o [j \in 1..(p + 1) |-> One]
                ELSE \E h \in EndStyles, t \in EndStyles, d \in Domains :
                       /\ <<h, t>> # <<"clamped", "clamped">> \/ d # <<Zero, One>>
                       /\ U' = OpenVector(p, s, h, t, d)
        /\ UNCHANGED <<p, k>>
Spec == Init /\ [][Next]_vars
Set == U # <<>>

n == LastIdx(U, p)
A == At(U, p)                           \* the domain
B == At(U, n + 1)
Grid == {Rat(j, Den * Fine) : j \in 0..(Den * Fine)}
Us == IF ~Open THEN Grid
      ELSE {u \in Grid \cup {A, B} : RLe(A, u) /\ RLe(u, B)}
Pts == Identity(n + 1)
T == UTower(U, p)
Ks == 0..p

(***************************************************************************)
(* Basis functions, of all derivative orders.                              *)
(***************************************************************************)
Recurrence == Set => \A j \in Ks : \A u \in Us :
                NRow(T[j + 1], p - j, u) = Tab(n - j + 1, LAMBDA i : NDef(T[j + 1], p - j, i, u))
Unity      == Set => \A j \in Ks : \A u \in Us : RSum(NRow(T[j + 1], p - j, u)) = One
Positive   == Set => \A j \in Ks : \A u \in Us : \A i \in 1..(n - j + 1) : RLe(Zero, NRow(T[j + 1], p - j, u)[i])
Local      == Set => \A u \in Us : \A i \in 0..n :
                (RLt(u, At(U, i)) \/ RLt(At(U, i + p + 1), u)) => At(NRow(U, p, u), i) = Zero

(***************************************************************************)
(* Evaluation, on the unit vectors as control points.                      *)
(***************************************************************************)
SumDef   == Set => \A u \in Us : Eval(U, p, Pts, u, 0) = Tab(n + 1, LAMBDA i : NDef(U, p, i, u))
Ends     == (Set /\ ~Open) => Eval(U, p, Pts, Zero, 0) = Pts[1] /\ Eval(U, p, Pts, One, 0) = Last(Pts)
\* derivatives: the Taylor expansion about the start of a span is the curve on the span
RECURSIVE Fact(_)
Fact(i) == IF i = 0 THEN 1 ELSE i * Fact(i - 1)
Taylor == Set => \A l \in Spans(U, p) : \A j \in 0..p :
            LET a == At(U, l)
                h == RMul(Rat(2 * j + 1, 2 * p + 2), RSub(At(U, l + 1), a))
                c == [i \in 1..(p + 1) |-> RDiv(RPow(h, i - 1), RInt(Fact(i - 1)))]
            IN VComb(c, [i \in 1..(p + 1) |-> EvalOn(U, p, Pts, l, a, i - 1)], n + 1)
                 = EvalOn(U, p, Pts, l, RAdd(a, h), 0)
Beyond == Set => \A u \in Us : Eval(U, p, Pts, u, p + 1) = VZero(n + 1)
\* p - m continuous derivatives at a knot of multiplicity m
Smooth == Set => \A l \in Spans(U, p) : \A r \in Spans(U, p) :
            (l < r /\ At(U, l + 1) = At(U, r)) =>
              \A j \in 0..(p - Mult(U, At(U, r))) :
                EvalOn(U, p, Pts, l, At(U, r), j) = EvalOn(U, p, Pts, r, At(U, r), j)
\* the derivative data evaluated as curves of their own
Towers == Set => \A u \in Us : \A j \in Ks :
            VComb(NRow(T[j + 1], p - j, u), PTower(U, p, Pts, p)[j + 1], n + 1) = Eval(U, p, Pts, u, j)
Blossoms == Set => \A l \in Spans(U, p) :
              /\ \A u \in Us : Blossom(U, p, Pts, l, [j \in 1..p |-> u]) = EvalOn(U, p, Pts, l, u, 0)
              /\ \A i \in (l - p)..l : Blossom(U, p, Pts, l, Sub(U, i + 1, i + p)) = At(Pts, i)

(***************************************************************************)
(* Knot search and queries.                                                *)
(***************************************************************************)
Cmps == {"Left", "LeftOrEqual", "RightOrEqual", "Right"}
Search == Set => \A j \in Ks : \A u \in Us :
  LET F(c) == FindKnot(T[j + 1], p - j, c, u)
  IN /\ RLe(F("Left"), F("LeftOrEqual")) /\ RLe(F("RightOrEqual"), F("Right"))
     /\ RLe(F("LeftOrEqual"), u) /\ RLe(u, F("RightOrEqual"))
     /\ (RLt(A, u)) => RLt(F("Left"), u)
     /\ (RLt(u, B)) => RLt(u, F("Right"))
     \* no knot of the domain lies strictly between the result and u
     /\ \A i \in DOMAIN U : ~(RLt(F("LeftOrEqual"), U[i]) /\ RLt(U[i], u))
     /\ \A i \in DOMAIN U : ~(RLt(u, U[i]) /\ RLt(U[i], F("RightOrEqual")))
     /\ (u \in {U[i] : i \in DOMAIN U} \ {B}) => F("LeftOrEqual") = u
     /\ (u \in {U[i] : i \in DOMAIN U}) => F("RightOrEqual") = u
     \* the same for every derivative order
     /\ \A c \in Cmps : F(c) = FindKnot(U, p, c, u)
Queries == Set =>
  /\ \A j \in Ks : Len(T[j + 1]) = Len(U) - 2 * j /\ LastIdx(T[j + 1], p - j) = n - j
  /\ \A j \in Ks : Sub(T[j + 1], p - j, n + 1 - j) = Sub(U, p, n + 1)
  /\ OpenKnots(U, p)
  /\ ~Open => ValidKnots(U, p, Zero, One)
  /\ MirrorKnots(MirrorKnots(U)) = U /\ OpenKnots(MirrorKnots(U), p)
  /\ ~Open => ValidKnots(MirrorKnots(U), p, Zero, One)
  /\ Normalize(Rescale(U, Zero, One, Rat(-3, 2), Rat(5, 4))) = IF Open THEN Normalize(U) ELSE U
  /\ \A v \in Inside : Mult(Rescale(U, Zero, One, RInt(2), RInt(6)), RAdd(RInt(2), RMul(RInt(4), v))) = Mult(U, v)
  /\ Cardinality(Spans(U, p)) = 1 + Cardinality({U[i] : i \in (p + 2)..(n + 1)})

(***************************************************************************)
(* Export.                                                                 *)
(***************************************************************************)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Session ==
  CASE Out = "basis" -> << [op |-> "basis", p |-> p, U |-> U, qs |-> SeqOf([u : Us, k : Ks])] >>
    [] Out = "eval"  -> << [op |-> "new", s |-> 1, p |-> p, U |-> U, P |-> Pts],
                           [op |-> "eval", s |-> 1, qs |-> SeqOf([u : Us, k : {0}])] >>
    [] Out = "derivatives"
                     -> << [op |-> "new", s |-> 1, p |-> p, U |-> U, P |-> Pts],
                           [op |-> "eval", s |-> 1, qs |-> SeqOf([u : Us, k : 1..(p + 2)])] >>
    [] Out = "curves" -> << [op |-> "new", s |-> 1, p |-> p, U |-> U, P |-> Pts] >>
    [] Out = "find"  -> << [op |-> "find", p |-> p, U |-> U, qs |-> SeqOf([u : Us, k : Ks, cmp : Cmps])] >>
    [] Out = "queries"
                     -> << [op |-> "kq", p |-> p, U |-> U, us |-> SeqOf(Us)],
                           [op |-> "kq", p |-> p, U |-> MirrorKnots(U), us |-> SeqOf(Us \ {Half})],
                           [op |-> "kq", p |-> p, U |-> Rescale(U, Zero, One, RInt(-1), RInt(2)), us |-> <<Half, One>>],
                           [op |-> "kmap", p |-> p, U |-> Rescale(U, Zero, One, Rat(-1, 2), RInt(3)),
                            kind |-> "normalize", old |-> <<Zero, One>>, new |-> <<Zero, One>>],
                           [op |-> "kmap", p |-> p, U |-> U,
                            kind |-> "rescale", old |-> <<Zero, One>>, new |-> <<RInt(2), Rat(9, 2)>>],
                           [op |-> "kmap", p |-> p, U |-> U,
                            kind |-> "rescale", old |-> <<Rat(-1, 2), RInt(2)>>, new |-> <<RInt(-1), One>>] >>
    [] OTHER -> <<>>
Exported == Set => (Session = <<>> \/ Emit(Session))
=============================================================================
