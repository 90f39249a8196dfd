------------------------------ MODULE Rational ------------------------------
(***************************************************************************)
(* Exact rational arithmetic.  A rational is the pair <<n, d>> with d > 0  *)
(* and gcd(n, d) = 1, so that equality of rationals is equality of values. *)
(*                                                                         *)
(* The definitions below are complete, ordinary TLA+.  TLC evaluates them  *)
(* as they stand as long as the integers fit in 32 bits (TLC reports an    *)
(* overflow as an error, it never wraps).  /verif/java/Rational.java is a  *)
(* TLC module override with the same meaning and unlimited precision; a    *)
(* number whose parts do not fit in 32 bits is represented there by an     *)
(* opaque triple.  RationalCheck.tla compares the two on a grid.           *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL AbsI(x) == IF x < 0 THEN -x ELSE x

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

\* n/d in canonical form, for any integers n and d # 0
Rat(n, d) ==
  LET g == GCD(AbsI(n), AbsI(d))
      s == IF d < 0 THEN -1 ELSE 1
  IN  <<s * (n \div g), s * (d \div g)>>

RInt(i) == <<i, 1>>
Zero == <<0, 1>>
One  == <<1, 1>>
Half == <<1, 2>>

RNeg(a)    == <<-a[1], a[2]>>
RAbs(a)    == <<AbsI(a[1]), a[2]>>
RAdd(a, b) == Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RSub(a, b) == Rat(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
RMul(a, b) == Rat(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == Rat(a[1] * b[2], a[2] * b[1])            \* b # 0
RLt(a, b)  == a[1] * b[2] < b[1] * a[2]
RLe(a, b)  == a[1] * b[2] <= b[1] * a[2]
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RFloor(a)  == a[1] \div a[2]                           \* an integer

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN One ELSE RMul(a, RPow(a, k - 1))

(***************************************************************************)
(* Vectors: sequences of rationals.                                        *)
(***************************************************************************)
RECURSIVE RSumTo(_, _)
RSumTo(s, i) == IF i = 0 THEN Zero ELSE RAdd(RSumTo(s, i - 1), s[i])
RSum(s)   == RSumTo(s, Len(s))

RECURSIVE RDotTo(_, _, _)
RDotTo(s, t, i) == IF i = 0 THEN Zero
                   ELSE RAdd(RDotTo(s, t, i - 1), RMul(s[i], t[i]))
RDot(s, t) == RDotTo(s, t, Len(s))

RECURSIVE RMaxAbsTo(_, _)
RMaxAbsTo(s, i) == IF i = 0 THEN Zero ELSE RMax(RMaxAbsTo(s, i - 1), RAbs(s[i]))
RMaxAbs(s) == RMaxAbsTo(s, Len(s))                     \* max norm

VZero(n)     == [i \in 1..n |-> Zero]
VAdd(s, t)   == [i \in 1..Len(s) |-> RAdd(s[i], t[i])]
VSub(s, t)   == [i \in 1..Len(s) |-> RSub(s[i], t[i])]
VScale(c, s) == [i \in 1..Len(s) |-> RMul(c, s[i])]
VAxpy(c, s, t) == [i \in 1..Len(s) |-> RAdd(RMul(c, s[i]), t[i])]   \* c*s + t
VAbs(s)      == [i \in 1..Len(s) |-> RAbs(s[i])]

\* Sum of w[i] * vs[i]: a linear combination of vectors of dimension n
RECURSIVE VCombTo(_, _, _, _)
VCombTo(w, vs, n, i) == IF i = 0 THEN VZero(n)
                        ELSE VAxpy(w[i], vs[i], VCombTo(w, vs, n, i - 1))
VComb(w, vs, n) == VCombTo(w, vs, n, Len(w))

VMax(s, t)   == [i \in 1..Len(s) |-> RMax(s[i], t[i])]
VLe(s, t)    == \A i \in 1..Len(s) : RLe(s[i], t[i])        \* in every entry
\* |s - t| <= tol in every entry
VClose(s, t, tol) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : RLe(RAbs(RSub(s[i], t[i])), tol[i])
RClose(a, b, tol) == RLe(RAbs(RSub(a, b)), tol)

(***************************************************************************)
(* Numbers recorded from the implementation: a finite double is the        *)
(* rational it denotes; NaN and the infinities are the pairs <<0,0>>,      *)
(* <<1,0>> and <<-1,0>>, which no arithmetic operator accepts.             *)
(***************************************************************************)
Finite(a)  == Len(a) # 2 \/ a[2] # 0
VFinite(s) == \A i \in 1..Len(s) : Finite(s[i])
=============================================================================
