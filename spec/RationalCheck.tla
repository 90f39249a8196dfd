---------------------------- MODULE RationalCheck ----------------------------
(***************************************************************************)
(* Compares the operators of Rational, as TLC evaluates them (with the     *)
(* override in place), with their definitions, which are repeated here     *)
(* under other names and are not overridden.                               *)
(***************************************************************************)
EXTENDS Rational, TLC

LOCAL Ab(x) == IF x < 0 THEN -x ELSE x
RECURSIVE G(_, _)
G(a, b) == IF b = 0 THEN a ELSE G(b, a % b)
Q(x, d) == LET g == G(Ab(x), Ab(d))
               s == IF d < 0 THEN -1 ELSE 1
           IN <<s * (x \div g), s * (d \div g)>>
Qs == {Q(x, d) : x \in -7..7, d \in 1..6}

VARIABLES a, b
Init == a \in Qs /\ b \in Qs
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>

RECURSIVE Pow(_, _)
Pow(x, e) == IF e = 0 THEN <<1, 1>> ELSE LET y == Pow(x, e - 1) IN Q(x[1] * y[1], x[2] * y[2])
Plus(x, y)  == Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
Times(x, y) == Q(x[1] * y[1], x[2] * y[2])
Minus(x, y) == Plus(x, <<-y[1], y[2]>>)
Less(x, y)  == x[1] * y[2] < y[1] * x[2]

Scalars ==
  /\ Rat(a[1] * 6, -a[2] * 4) = Q(a[1] * 6, -a[2] * 4)
  /\ RInt(a[1]) = <<a[1], 1>> /\ Zero = <<0, 1>> /\ One = <<1, 1>> /\ Half = <<1, 2>>
  /\ RNeg(a) = <<-a[1], a[2]>> /\ RAbs(a) = <<Ab(a[1]), a[2]>>
  /\ RAdd(a, b) = Plus(a, b) /\ RSub(a, b) = Minus(a, b) /\ RMul(a, b) = Times(a, b)
  /\ b[1] # 0 => RDiv(a, b) = Q(a[1] * b[2], a[2] * b[1])
  /\ RLt(a, b) = Less(a, b) /\ RLe(a, b) = ~Less(b, a)
  /\ RMin(a, b) = (IF Less(b, a) THEN b ELSE a) /\ RMax(a, b) = (IF Less(a, b) THEN b ELSE a)
  /\ RFloor(a) = a[1] \div a[2]
  /\ \A e \in 0..4 : RPow(a, e) = Pow(a, e)
\* beyond 32 bits and back again
Big ==
  /\ a[1] # 0 => RDiv(RMul(RPow(a, 30), b), RPow(a, 30)) = b
  /\ RSub(RAdd(RPow(RInt(3), 60), a), RPow(RInt(3), 60)) = a
  /\ RLt(RAdd(RPow(RInt(7), 40), a), RAdd(RPow(RInt(7), 40), b)) = Less(a, b)
  /\ RMul(RPow(Half, 80), RPow(RInt(2), 80)) = One
Vectors ==
  LET s == <<a, b, One>>
      t == <<b, Half, a>>
      c == a
  IN /\ RSum(s) = Plus(Plus(a, b), One)
     /\ RDot(s, t) = Plus(Plus(Times(a, b), Times(b, Half)), a)
     /\ RMaxAbs(s) = RMax(RMax(RAbs(a), RAbs(b)), One)
     /\ VZero(3) = <<Zero, Zero, Zero>>
     /\ VAdd(s, t) = <<Plus(a, b), Plus(b, Half), Plus(One, a)>>
     /\ VSub(s, t) = <<Minus(a, b), Minus(b, Half), Minus(One, a)>>
     /\ VScale(c, s) = <<Times(c, a), Times(c, b), c>>
     /\ VAxpy(c, s, t) = <<Plus(Times(c, a), b), Plus(Times(c, b), Half), Plus(c, a)>>
     /\ VAbs(s) = <<RAbs(a), RAbs(b), One>>
     /\ VComb(<<a, b>>, <<s, t>>, 3) = VAdd(VScale(a, s), VScale(b, t))
     /\ VMax(s, t) = <<RMax(a, b), RMax(b, Half), RMax(One, a)>>
     /\ VLe(s, t) = (RLe(a, b) /\ RLe(b, Half) /\ RLe(One, a))
     /\ VClose(s, t, <<Half, One, Half>>) =
          (RLe(RAbs(Minus(a, b)), Half) /\ RLe(RAbs(Minus(b, Half)), One) /\ RLe(RAbs(Minus(One, a)), Half))
     /\ RClose(a, b, Half) = RLe(RAbs(Minus(a, b)), Half)
Specials == Finite(a) /\ ~Finite(<<0, 0>>) /\ ~Finite(<<1, 0>>) /\ VFinite(<<a, b>>) /\ ~VFinite(<<a, <<-1, 0>>>>)
=============================================================================
