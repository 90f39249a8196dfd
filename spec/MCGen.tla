-------------------------------- MODULE MCGen --------------------------------
(***************************************************************************)
(* Generation of knots from parameters, and of parameters from data        *)
(* points, on grids.                                                       *)
(***************************************************************************)
EXTENDS Fitting, TraceIO

CONSTANTS Degrees,      \* degrees of the knots
          ParamsMax,    \* parameters: up to ParamsMax + 1 of them,
          Den,          \* multiples of 1/Den
          Coords,       \* coordinates of the data points
          DataMax,      \* up to DataMax + 1 data points
          Out           \* "knots", "deboor" or "params"

VARIABLES m, x, p, n
vars == <<m, x, p, n>>

Grid == {Rat(j, Den) : j \in 1..(Den - 1)}
RECURSIVE Increasing(_, _)
Increasing(c, from) == IF c = 0 THEN {<<>>}
  ELSE UNION {{<<j>> \o s : s \in Increasing(c - 1, j + 1)} : j \in from..(Den - 1)}
ParamSeqs(c) == {<<Zero>> \o [i \in 1..Len(s) |-> Rat(s[i], Den)] \o <<One>> : s \in Increasing(c - 1, 1)}

\* The smallest steps of a grid whose square roots are rational: coordinates are their
\* sums, so that all three methods have rational parameters
Point(d) == IF d = 1 THEN {<<RInt(c)>> : c \in Coords} ELSE {<<RInt(c), RInt(e)>> : c \in Coords, e \in {0, 1}}
RECURSIVE Data(_, _)
Data(c, d) == IF c = 0 THEN {<<>>} ELSE {s \o <<q>> : s \in Data(c - 1, d), q \in Point(d)}

Init == m \in 1..(IF Out = "params" THEN DataMax ELSE ParamsMax) /\ x = <<>> /\ p = 0 /\ n = 0
Next ==
  /\ x = <<>>
  /\ UNCHANGED m
  /\ IF Out = "params"
     THEN /\ \E d \in 1..2 : x' \in {q \in Data(m + 1, d) : \E j \in 1..m : q[j] # q[j + 1]}
          /\ UNCHANGED <<p, n>>
     ELSE /\ x' \in ParamSeqs(m)
          /\ p' \in Degrees
          /\ n' \in 0..m
          /\ (n' >= p' /\ p' > 0) \/ x' = EquallySpaced(m)
Spec == Init /\ [][Next]_vars
Set == x # <<>>
Knots == Set /\ Out # "params" /\ p > 0 /\ n >= p
Params == Set /\ Out = "params"

(***************************************************************************)
(* Knots.                                                                  *)
(***************************************************************************)
Methods == {"uniform", "deboor"} \cup (IF n = m THEN {"averaging"} ELSE {})
Valid == Knots => \A f \in Methods :
  LET U == KnotsOfMethod(f, p, n, x)
  IN /\ Len(U) = n + p + 2
     /\ ValidKnots(U, p, Zero, One)
     /\ \A j \in (p + 1)..n : RLt(Zero, At(U, j)) /\ RLt(At(U, j), One)
UniformSpans == Knots => LET U == UniformKnots(p, n)
                         IN \A l \in p..n : RSub(At(U, l + 1), At(U, l)) = Rat(1, n - p + 1)
\* no span of the de Boor knots is without a parameter
DeBoorSpans == Knots =>
  LET U == DeBoorKnots(p, n, x)
  IN \A l \in p..n : \E g \in DOMAIN x : RLe(At(U, l), x[g])
                        /\ (RLt(x[g], At(U, l + 1)) \/ (l = n /\ x[g] = One))
\* hence a fit on them is unique, and so is interpolation on averaged knots
Unique == Knots => /\ Rank(Collocation(DeBoorKnots(p, n, x), p, x)) = n + 1
                   /\ n = m => Rank(Collocation(AveragingKnots(p, n, x), p, x)) = n + 1
\* from m parameters to m segments and equal parameters, averaging gives the classical knots
Greville == Knots /\ n = m =>
  LET U == AveragingKnots(p, n, x)
  IN \A j \in 1..(n - p) : RMul(RInt(p), At(U, j + p)) = RSum(Sub(x, j, j + p - 1))

(***************************************************************************)
(* Parameters.                                                             *)
(***************************************************************************)
\* exact roots of the squared distances on the line
Abs1(i) == RAbs(RSub(x[i + 1][1], x[i][1]))
Line == Len(x[1]) = 1
ByLength(len(_)) ==
  LET tot == RSum([i \in 1..m |-> len(i)])
  IN Tab(m + 1, LAMBDA g : IF g = m THEN One ELSE RDiv(RSum([i \in 1..g |-> len(i)]), tot))
IsRoot(i) == Abs1(i) \in {Zero, One, RInt(4), RInt(9)}
Root(i) == IF Abs1(i) = Zero THEN Zero ELSE IF Abs1(i) = One THEN One ELSE IF Abs1(i) = RInt(4) THEN RInt(2) ELSE RInt(3)
Monotone(t) == t[1] = Zero /\ Last(t) = One /\ \A g \in 1..m : RLe(t[g], t[g + 1])
Bump(t, g, e) == [t EXCEPT ![g] = RAdd(@, e)]
\* the condition the recorded parameters are judged by has the right solution and no other
Characterised(t, w) ==
  /\ ByDistance(t, x, w)
  /\ \A g \in 2..m : \A e \in {Rat(1, 1000), Rat(-1, 1000)} : ~(Monotone(Bump(t, g, e)) /\ ByDistance(Bump(t, g, e), x, w))
Chord == Params /\ Line => LET t == ByLength(Abs1) IN Monotone(t) /\ Characterised(t, 2)
Centripetal == Params /\ Line /\ (\A i \in 1..m : IsRoot(i)) =>
                 LET t == ByLength(Root) IN Monotone(t) /\ Characterised(t, 4)
Equal == Params => Monotone(EquallySpaced(m))

(***************************************************************************)
(* Export.                                                                 *)
(***************************************************************************)
Gen(f) == [op |-> "knotgen", p |-> p, n |-> n, t |-> x, method |-> f]
Session ==
  CASE Out = "params" -> << [op |-> "params", Q |-> x, method |-> "equal"],
                            [op |-> "params", Q |-> x, method |-> "chord"],
                            [op |-> "params", Q |-> x, method |-> "centripetal"] >>
    [] Out = "deboor" -> << Gen("deboor") >>
    [] Out = "knots"  -> << Gen("uniform") >> \o (IF n = m THEN <<Gen("averaging")>> ELSE <<>>)
Exported == Set => Emit(Session)
=============================================================================
