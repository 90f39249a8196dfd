------------------------------- MODULE MCPairs -------------------------------
(***************************************************************************)
(* Two users work on curves of their own in one register file: every pair  *)
(* of short sequences of operations, in every interleaving.  What either   *)
(* of them sees is what it sees when working alone.                        *)
(***************************************************************************)
EXTENDS Fitting, TraceIO

CONSTANTS Degrees, InnerMax, Den, LenA, LenB   \* operations after the creation

VARIABLES regs, out,       \* the file; the outcomes of each user
          did,             \* the operations of each user so far
          order            \* whose turn it was
vars == <<regs, out, did, order>>

Inside == {Rat(k, Den) : k \in 1..(Den - 1)}
RECURSIVE Inner(_)
Inner(k) == IF k = 0 THEN {<<>>} ELSE {s \o <<x>> : s \in Inner(k - 1), x \in Inside}
StartKnots(p) == {VZero(p + 1) \o s \o [j \in 1..(p + 1) |-> One] :
                  s \in UNION {{t \in Inner(k) : Sorted(t) /\ \A x \in Inside : Mult(t, x) <= p} : k \in 0..InnerMax}}
\* different points for both users
Pts(w, n) == [j \in 1..n |-> <<RInt(IF w = 1 THEN j * j ELSE 5 - 2 * j), Rat(w * j, 2)>>]
New(w, p, U) == [op |-> "new", s |-> 1, p |-> p, U |-> U, P |-> Pts(w, Len(U) - p - 1)]

\* Curve 1 is always there; its copies in 2..4
Pool(p) ==
  {[op |-> "insert", s |-> 1, u |-> Half, x |-> 1, api |-> "insert"],
   [op |-> "insert", s |-> 1, u |-> Rat(1, Den), x |-> 2, api |-> "times"],
   [op |-> "split", s |-> 1, l |-> 1, r |-> 2, u |-> Half, nl |-> TRUE, nr |-> TRUE],
   [op |-> "reverse", s |-> 1, d |-> 1, api |-> "method"],
   [op |-> "reverse", s |-> 1, d |-> 4, api |-> "copy"],
   [op |-> "deriv", s |-> 1, d |-> 3, k |-> 1],
   [op |-> "merge", a |-> 1, b |-> 1, d |-> 3, api |-> "merge", ca |-> <<>>, cb |-> <<>>],
   [op |-> "insert", s |-> 1, u |-> One, x |-> 1, api |-> "insert"],
   [op |-> "eval", s |-> 1, u |-> Rat(1, 3), k |-> 1]}

\* The registers of user w are 10 w + 1, ...
Own(w, o) == [f \in DOMAIN o |-> IF f \in {"s", "d", "l", "r", "a", "b"} THEN 10 * w + o[f] ELSE o[f]]
Seen(w, x) == [res |-> x.res, errs |-> x.errs, val |-> x.val, post |-> [s \in {r - 10 * w : r \in DOMAIN x.post} |-> x.post[10 * w + s]]]

Init == regs = <<>> /\ out = <<<<>>, <<>>>> /\ did = <<<<>>, <<>>>> /\ order = <<>>
Take(w, o) ==
  LET x == TLCEval(Do(regs, Own(w, o)))
  IN /\ regs' = TLCEval(x.post @@ regs)
     /\ out' = [out EXCEPT ![w] = Append(@, Seen(w, x))]
     /\ did' = [did EXCEPT ![w] = Append(@, o)]
     /\ order' = Append(order, w)
Start(w) == did[w] = <<>> /\ \E p \in Degrees : \E U \in StartKnots(p) : Take(w, New(w, p, U))
Work(w)  == did[w] # <<>> /\ Len(did[w]) < 1 + (IF w = 1 THEN LenA ELSE LenB)
            /\ \E o \in Pool(0) : Take(w, o)
Next == \E w \in {1, 2} : Start(w) \/ Work(w)
Spec == Init /\ [][Next]_vars

\* What user w sees alone
RECURSIVE Alone(_, _, _, _)
Alone(file, seen, ops, w) ==
  IF ops = <<>> THEN <<file, seen>>
  ELSE LET x == TLCEval(Do(file, Own(w, ops[1]))) IN Alone(TLCEval(x.post @@ file), Append(seen, Seen(w, x)), Tail(ops), w)
Independence ==
  \A w \in {1, 2} :
    LET r == Alone(<<>>, <<>>, did[w], w)
    IN /\ out[w] = r[2]
       /\ \A s \in DOMAIN regs : (s \div 10 = w) => s \in DOMAIN r[1] /\ regs[s] = r[1][s]
\* An operation changes the registers it names as results, nothing else
Writes(o) == CASE o.op \in {"new", "insert"} -> {o.s}
               [] o.op = "split" -> {o.l, o.r}
               [] o.op \in {"reverse", "deriv", "merge"} -> {o.d}
               [] OTHER -> {}
Frame == order # <<>> =>
           LET w == Last(order) IN DOMAIN Last(out[w]).post \subseteq Writes(Last(did[w]))

Full == Len(did[1]) = 1 + LenA /\ Len(did[2]) = 1 + LenB
Scr(s) == [j \in 1..Len(s) |->
            IF s[j].op = "eval" THEN [op |-> "eval", s |-> s[j].s, qs |-> <<[u |-> s[j].u, k |-> s[j].k]>>] ELSE s[j]]
Exported == Full => Emit(<<[op |-> "pair", A |-> Scr(did[1]), B |-> Scr(did[2]),
                            order |-> [j \in 1..Len(order) |-> order[j] - 1]]>>)
=============================================================================
