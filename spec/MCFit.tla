-------------------------------- MODULE MCFit --------------------------------
(***************************************************************************)
(* Interpolation and least-squares fits of small size, loose and with      *)
(* fixed ends, with and without penalty, and requests for fits that cannot *)
(* be served.  The data points are the unit vectors: a fit is linear in    *)
(* them, so what holds for these holds for all.                            *)
(***************************************************************************)
EXTENDS Fitting, TraceIO

CONSTANTS Degrees,      \* degrees of the curve
          Extra,        \* up to Extra segments more than the degree
          More,         \* up to More data segments more than that
          Out           \* "interp", "fit", "penalty" or "refuse"

VARIABLES p, n, m, r    \* degree, segments, data segments, the request
vars == <<p, n, m, r>>

Lambdas == {Rat(1, 10), One, RInt(20), RInt(100000)}
Pens == CASE Out = "fit" -> {<<>>} \cup {<<Zero, k>> : k \in 1..2}
          [] Out = "penalty" -> {<<l, k>> : l \in Lambdas, k \in 1..3}
          [] Out = "refuse" -> {<<>>} \cup {<<l, k>> : l \in {RInt(-1), Zero, One}, k \in 1..5}
          [] OTHER -> {<<>>}
Uneven(c) == Tab(c + 1, LAMBDA g : IF g = c THEN One ELSE RMul(Rat(g, c), Rat(g + c, 2 * c)))
\* every other parameter equal to the one before; not from end to end
Repeated(c) == Tab(c + 1, LAMBDA g : IF g = c THEN One ELSE IF g % 2 = 1 THEN Rat(g - 1, c) ELSE Rat(g, c))
Within(c) == Tab(c + 1, LAMBDA g : RAdd(Rat(1, 10), RMul(Rat(7, 10), Rat(g, c))))
KnotsFor(t) == {UniformKnots(p, n)} \cup (IF n >= p /\ m >= n THEN {DeBoorKnots(p, n, t)} ELSE {})
Requests ==
  IF Out = "refuse"
  THEN [U : {UniformKnots(p, n), Tab(n + p + 2, LAMBDA i : Rat(i * i, (n + p + 1) * (n + p + 1)))},
        t : {EquallySpaced(m)}, mp : {m, m + 1}, pen : Pens, fixed : BOOLEAN]
  ELSE UNION {[U : KnotsFor(t), t : {t}, mp : {m}, pen : Pens,
               fixed : IF Out = "interp" \/ t[1] # Zero THEN {FALSE} ELSE BOOLEAN]
               : t \in {EquallySpaced(m), Uneven(m), Within(m)} \cup (IF Out = "interp" THEN {} ELSE {Repeated(m)})}

\* (a vector of fewer than 2p+1 knots, n < p-1, has no derivative of order p)
Init == /\ p \in Degrees /\ r = <<>>
        /\ IF Out = "refuse" THEN n \in (p - 1)..(p + Extra) /\ m \in 1..(p + Extra + More)
           ELSE n \in p..(p + Extra) /\ m \in n..(IF Out = "interp" THEN n ELSE n + More) /\ m > 0
Next == r = <<>> /\ r' \in Requests /\ UNCHANGED <<p, n, m>>
Spec == Init /\ [][Next]_vars
Set == r # <<>>

Q == Identity(m + 1)
Errs == FitErrs(p, r.U, m, r.mp, r.pen, r.fixed)
Free == IF r.fixed THEN 1..(n - 1) ELSE 0..n
N == Collocation(r.U, p, r.t)
lam == IF r.pen = <<>> THEN Zero ELSE r.pen[1]

(***************************************************************************)
(* The optimal control points, from the normal equations.                  *)
(***************************************************************************)
\* coefficient rows of the equations: the gradient of the unit vectors and no data
Normal ==
  LET none == [g \in 1..(m + 1) |-> <<Zero>>]
      col(j) == Gradient(N, Tab(n + 1, LAMBDA i : IF i = j THEN <<One>> ELSE <<Zero>>), none, r.pen, r.fixed)
      cols == [j \in Free |-> col(j)]
      f == IF r.fixed THEN 1 ELSE 0
  IN Tab(Cardinality(Free), LAMBDA i : Tab(Cardinality(Free), LAMBDA j : cols[j + f][i + 1][1]))
Start == Tab(n + 1, LAMBDA i : IF r.fixed /\ i = 0 THEN Q[1]
                               ELSE IF r.fixed /\ i = n THEN Last(Q) ELSE VZero(m + 1))
Solution ==
  IF Free = {} THEN Start
  ELSE LET G == Gradient(N, Start, Q, r.pen, r.fixed)
           s == Solve(Normal, [i \in 1..Len(G) |-> VScale(RInt(-1), G[i])])
           f == IF r.fixed THEN 1 ELSE 0
       IN Tab(n + 1, LAMBDA i : IF i \in Free THEN s.x[i - f + 1] ELSE Start[i + 1])
Regular == Free = {} \/ Rank(Normal) = Cardinality(Free)
Served == Set /\ Errs = {} /\ n >= p /\ ValidKnots(r.U, p, Zero, One) /\ Regular

Optimal == Served =>
  LET P == Solution
      G == Gradient(N, P, Q, r.pen, r.fixed)
      best == Objective(N, P, Q, r.pen, r.fixed)
  IN Free # {} =>
     /\ \A j \in DOMAIN G : G[j] = VZero(m + 1)
     \* nothing nearby is better, in any point and any coordinate
     /\ \A j \in Free : \A e \in {Rat(1, 8), Rat(-1, 8)} : \A c \in {1, m + 1} :
          RLt(best, Objective(N, [P EXCEPT ![j + 1][c] = RAdd(@, e)], Q, r.pen, r.fixed))
EndsKept == Served /\ r.fixed => Solution[1] = Q[1] /\ Last(Solution) = Last(Q)
Through == Served /\ n = m /\ lam = Zero /\ ~r.fixed => Residuals(N, Solution, Q) = [g \in 1..(m + 1) |-> VZero(m + 1)]
\* a fit reproduces constants and what the penalty leaves free
Constants == Served /\ Free # {} =>
  LET P == Solution
  IN \A j \in 1..(n + 1) : RSum(P[j]) = One
\* on de Boor knots every fit is unique
Refused == Set => (Errs = {} => m >= n /\ r.mp = m /\ n >= p)

(***************************************************************************)
(* Export.                                                                 *)
(***************************************************************************)
Fit == [op |-> "fit", p |-> p, U |-> r.U, t |-> r.t, mp |-> r.mp, Q |-> Q, fixed |-> r.fixed, pen |-> r.pen]
Lsq == [op |-> "lsq", s |-> 1, p |-> p, Q |-> Q, n |-> n, fixed |-> r.fixed, pen |-> r.pen]
Direct == [op |-> "interpolate", p |-> p, U |-> r.U, t |-> r.t, Q |-> Q]
Interp == [op |-> "interp", s |-> 1, p |-> p, Q |-> Q]
Session ==
  CASE Out = "interp" -> <<Direct>> \o (IF r.t = EquallySpaced(m) THEN <<Interp>> ELSE <<>>)
    [] OTHER -> <<Fit>> \o (IF r.t = EquallySpaced(m) /\ r.mp = m /\ r.U = UniformKnots(p, n) THEN <<Lsq>> ELSE <<>>)
Exported == Set /\ (Errs # {} \/ Served) => Emit(Session)
=============================================================================
