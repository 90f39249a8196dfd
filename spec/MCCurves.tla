------------------------------ MODULE MCCurves ------------------------------
(***************************************************************************)
(* All short histories of operations on small curves.                      *)
(*                                                                         *)
(* A history starts with one curve (or two) on every knot vector whose     *)
(* inner knots lie on the grid, and continues with Depth operations, one   *)
(* of the kinds that Plan allows at each step.                             *)
(*                                                                         *)
(* The control points are the unit vectors: coordinate i of any later      *)
(* point is its coefficient with respect to the i-th point of the start.   *)
(* All operations but merging are linear in the points, and merging is     *)
(* linear in the points of both curves, so what holds here for the unit    *)
(* vectors holds for all control points, of any dimension.                 *)
(***************************************************************************)
EXTENDS Fitting, TraceIO

CONSTANTS Plan,        \* name of the sequence of operations
          Degrees,     \* degrees of the start
          InnerMax,    \* number of inner knots of the start
          Den,         \* inner knots and parameters are multiples of 1/Den
          Long         \* explore the longer version of the plan

VARIABLES regs,        \* the register file
          gh,          \* what the registers denote
          ord,         \* order of derivation of each register
          hist,        \* the operations so far
          prev,        \* the registers before the last operation
          last         \* the last operation and its outcome
vars == <<regs, gh, ord, hist, prev, last>>

Steps ==
  LET edit == {"insert", "split", "reverse"}
  IN CASE Plan = "range"   -> IF Long THEN <<{"insert", "split"}, {"range"}>> ELSE <<{"range"}>>
       [] Plan = "insert"  -> IF Long THEN <<{"insert", "reverse"}, {"insert"}, {"insert"}>> ELSE <<{"insert"}, {"insert"}>>
       [] Plan = "limit"   -> IF Long THEN <<{"insert", "over"}, {"over"}, {"over"}>> ELSE <<{"insert", "over"}, {"over"}>>
       [] Plan = "history" -> IF Long THEN <<edit \cup {"deriv"}, edit \cup {"deriv"}, edit \cup {"deriv"}>>
                              ELSE <<edit \cup {"deriv"}, edit \cup {"deriv"}>>
       [] Plan = "split"   -> IF Long THEN <<edit, edit, {"splits"}>> ELSE <<edit, {"splits"}>>
       [] Plan = "reverse" -> IF Long THEN <<edit \cup {"deriv"}, edit, {"reverse"}>> ELSE <<edit \cup {"deriv"}, {"reverse"}>>
       [] Plan = "deriv"   -> IF Long THEN <<edit, {"deriv"}, edit \cup {"deriv"}>> ELSE <<{"deriv"}, edit \cup {"deriv"}>>
       [] Plan = "part"    -> <<{"parts"}, {"deriv"}>> \o (IF Long THEN <<edit>> ELSE <<>>)
       [] Plan = "evaluate" -> IF Long THEN <<edit, edit>> ELSE <<edit>>
       [] Plan = "merge"   -> IF Long THEN <<{"insert", "reverse"}, {"merge", "constrained"}>> ELSE <<{"merge", "constrained"}>>
       [] Plan = "attach"  -> IF Long THEN <<{"attach"}, {"attach"}>> ELSE <<{"attach"}, {"insert"}>>
       [] Plan = "refuse"  -> <<{"refuse"}>>
       [] Plan = "twin"    -> IF Long THEN <<edit, edit \cup {"deriv"}>> ELSE <<edit \cup {"deriv"}>>
       [] Plan = "edit"    -> IF Long THEN <<edit \cup {"deriv"}, {"points", "knots", "rebuild"}, edit \cup {"points"}>>
                              ELSE <<{"points", "knots", "deriv"}, {"rebuild", "points", "insert"}>>
       [] Plan = "open"    -> IF Long THEN <<edit \cup {"deriv"}, edit \cup {"deriv"}, edit \cup {"deriv"}>>
                              ELSE <<edit \cup {"deriv"}, edit \cup {"deriv"}>>
       [] Plan = "twin-merge" -> <<{"merge", "constrained"}>>
Two == Plan \in {"merge", "attach", "refuse", "twin-merge"}
Depth == Len(Steps)

(***************************************************************************)
(* Starts.                                                                 *)
(***************************************************************************)
Inside == {Rat(k, Den) : k \in 1..(Den - 1)}
Outside == {<<-1, Den>>, Zero, One, <<Den + 1, Den>>, <<0, 0>>, <<1, 0>>, <<-1, 0>>}
RECURSIVE Inner(_)
Inner(k) == IF k = 0 THEN {<<>>}
            ELSE {s \o <<x>> : s \in Inner(k - 1), x \in Inside}
SortedInner(p, k, mult) ==
  {s \in Inner(k) : /\ Sorted(s)
                    /\ \A x \in Inside : Mult(s, x) <= mult}
StartKnots(p) == {VZero(p + 1) \o s \o [j \in 1..(p + 1) |-> One] :
                  s \in UNION {SortedInner(p, k, p + 1) : k \in 0..InnerMax}}
Units(from, count, dim) == [j \in 1..count |-> [c \in 1..dim |-> IF c = from + j THEN One ELSE Zero]]

New(s, p, U, from, dim) == [op |-> "new", s |-> s, p |-> p, U |-> U, P |-> Units(from, Len(U) - p - 1, dim)]
OpenStarts(p) == {OpenVector(p, s, h, t, d) : s \in UNION {SortedInner(p, k, p) : k \in 0..InnerMax},
                                              h \in EndStyles, t \in EndStyles, d \in Domains}
One1(p, U) == <<New(1, p, U, 0, Len(U) - p - 1)>>
Both(p, U, V) == LET a == Len(U) - p - 1
                     b == Len(V) - p - 1
                 IN <<New(1, p, U, 0, a + b), New(2, p, V, a, a + b)>>
\* pairs that do not fit together
Squeezed(U) == Rescale(U, Zero, One, Rat(1, 4), Rat(3, 4))
Unclamped(p, n) == Tab(n + p + 2, LAMBDA j : Rat(j, n + p + 1))
Misfits(p) ==
  LET U == UniformKnots(p, p + 1)
      V == UniformKnots(p + 1, p + 2)
      W == UniformKnots(p + 3, p + 3)
      k(q, X) == New(1, q, X, 0, 2)
      l(q, X) == New(2, q, X, 0, 2)
      m(q, X) == New(2, q, X, 0, 3)
      all == {U, Squeezed(U), Unclamped(p, p + 1)}
  IN {<<k(p, X), l(p, Y)>> : X \in all, Y \in all}
     \cup {<<k(p, X), m(p, Y)>> : X \in all, Y \in {U, Squeezed(U)}}
     \cup {<<k(p, X), l(p + 1, V)>> : X \in all}
     \cup {<<k(p, U), m(p + 1, V)>>, <<k(p, U), l(p + 3, W)>>, <<New(1, p + 3, W, 0, 2), l(p, U)>>}

(***************************************************************************)
(* Operations.                                                             *)
(***************************************************************************)
Fits(c, u) == RLt(Lo(c), u) /\ RLt(u, Hi(c))
Ins(s, u, x) == [op |-> "insert", s |-> s, u |-> u, x |-> x,
                 api |-> IF x # 1 THEN "times" ELSE IF u[1] % 2 = 0 THEN "insert" ELSE "fn"]
Spl(s, l, r, u, nl, nr) == [op |-> "split", s |-> s, l |-> l, r |-> r, u |-> u, nl |-> nl, nr |-> nr]
Mrg(a, b, d, api, ca, cb) == [op |-> "merge", a |-> a, b |-> b, d |-> d, api |-> api, ca |-> ca, cb |-> cb]
Edit(s, what) == [op |-> "edit", s |-> s] @@ what
\* constraints to hold: parameters of each curve
ConstraintsA == {<<>>, <<One>>, <<Rat(Den - 1, Den)>>}
ConstraintsB == {<<>>, <<Zero>>, <<Rat(1, Den)>>}
Many == {Tab(k, LAMBDA j : Rat(j + 1, k + 1)) : k \in 0..2}
Independent(a, b, ca, cb) ==
  LET M == MergeRows(U0(a), U0(b), a.p, ca, cb) IN Rank(M) = Len(M)
Feasible(a, b, ca, cb) ==
  IF MergeErrs(a, b, Len(ca) + Len(cb)) # {} THEN TRUE ELSE Independent(a, b, ca, cb)

Ops(kind) ==
  CASE kind = "insert" ->
         {Ins(s, u, x) : s \in DOMAIN regs, u \in Inside, x \in {1, 2}}
         \cup {Ins(s, u, regs[s].p + 1 - Mult(U0(regs[s]), u)) : s \in DOMAIN regs, u \in Inside}
    [] kind = "over" -> {Ins(s, u, x) : s \in DOMAIN regs, u \in Inside, x \in 1..(regs[1].p + 2)}
    [] kind = "split" -> {Spl(s, 1, 2, u, TRUE, TRUE) : s \in DOMAIN regs, u \in Inside}
                         \cup {Spl(s, 3, 1, u, FALSE, FALSE) : s \in DOMAIN regs, u \in {Rat(1, Den)}}
    [] kind = "splits" -> {Spl(s, 2, 3, u, nl, nr) : s \in DOMAIN regs, u \in Inside, nl \in BOOLEAN, nr \in BOOLEAN}
    [] kind = "parts" -> {Spl(s, 1, 2, u, nl, nr) : s \in DOMAIN regs, u \in {Rat(1, Den), Half}, nl \in BOOLEAN, nr \in BOOLEAN}
    [] kind = "reverse" -> {[op |-> "reverse", s |-> s, d |-> s, api |-> "method"] : s \in DOMAIN regs}
                           \cup {[op |-> "reverse", s |-> s, d |-> 4, api |-> "copy"] : s \in DOMAIN regs}
    [] kind = "deriv" -> {[op |-> "deriv", s |-> s, d |-> 5, k |-> k] : s \in DOMAIN regs, k \in 0..regs[1].p}
    [] kind = "merge" -> {Mrg(a, b, 3, api, <<>>, <<>>) : a \in DOMAIN regs, b \in DOMAIN regs, api \in {"merge"}}
                         \cup {Mrg(a, b, 3, "merge_from", <<One>>, <<>>) : a \in DOMAIN regs, b \in DOMAIN regs}
                         \cup {Mrg(a, b, 3, "merge_to", <<>>, <<Zero>>) : a \in DOMAIN regs, b \in DOMAIN regs}
    [] kind = "constrained" ->
         UNION {{Mrg(1, 2, 1, "append_c", ca, cb), Mrg(1, 2, 2, "prepend_c", ca, cb)}
                : ca \in ConstraintsA, cb \in ConstraintsB}
    [] kind = "attach" ->
         UNION {{Mrg(1, 2, 1, "append_c", ca, cb), Mrg(2, 1, 1, "prepend_c", ca, cb)}
                : ca \in ConstraintsA, cb \in ConstraintsB}
         \cup {Mrg(1, 2, 1, "append", <<>>, <<>>), Mrg(2, 1, 1, "prepend", <<>>, <<>>)}
    [] kind = "points" ->
         UNION {LET P == P0(regs[s])
                IN {Edit(s, [P |-> [P EXCEPT ![j] = VAdd(VScale(RInt(2), P[j]), P[1])], api |-> "single", times |-> 1]) : j \in DOMAIN P}
                   \cup {Edit(s, [P |-> Rev(P), api |-> "whole", times |-> 2])}
                : s \in DOMAIN regs}
    [] kind = "knots" ->
         UNION {LET p == regs[s].p
                    m == Len(U0(regs[s])) - 2 * (p + 1)
                IN IF m < 0 THEN {}
                   ELSE {Edit(s, [U |-> VZero(p + 1) \o t \o [j \in 1..(p + 1) |-> One],
                                  api |-> IF Mult(t, Half) = 0 THEN "whole" ELSE "single", times |-> 1])
                         : t \in SortedInner(p, m, p + 1)}
                        \cup {Edit(s, [U |-> MirrorKnots(U0(regs[s])), P |-> Rev(P0(regs[s])), api |-> "whole", times |-> 1])}
                : s \in DOMAIN regs}
    [] kind = "rebuild" ->
         {[op |-> "rebuild", a |-> a, b |-> b, d |-> d, api |-> IF d = 4 THEN "new" ELSE "manual"]
          : a \in DOMAIN regs, b \in DOMAIN regs, d \in {1, 4}}
    [] kind = "refuse" -> UNION {{Mrg(1, 2, 1, "append_c", ca, cb), Mrg(1, 2, 2, "prepend_c", ca, cb)} : ca \in Many, cb \in Many}
                          \cup {Mrg(1, 2, 1, "append", <<>>, <<>>), Mrg(2, 1, 1, "prepend", <<>>, <<>>)}
                          \cup {Mrg(1, 2, 3, "merge", <<>>, <<>>), Mrg(2, 1, 1, "merge", <<>>, <<>>),
                           Mrg(1, 2, 2, "merge_from", <<One>>, <<>>), Mrg(1, 2, 3, "merge_to", <<>>, <<Zero>>)}
    [] kind = "range" ->
         {Ins(1, u, x) : u \in Outside, x \in 1..2}
         \cup {Spl(1, 1, 2, u, b, TRUE) : u \in Outside, b \in BOOLEAN}
         \cup {[op |-> "eval", s |-> 1, u |-> u, k |-> k] : u \in Outside \cup Inside, k \in 0..(regs[1].p + 1)}

Possible(o) ==
  CASE o.op = "insert" -> o.x >= 1
                          /\ (Plan \in {"limit", "range", "refuse"} \/ Mult(U0(regs[o.s]), o.u) + o.x <= regs[o.s].p + 1)
    [] o.op = "deriv"  -> o.k <= regs[o.s].p
    [] o.op = "eval"   -> ~InClosed(o.u) \/ (RLe(Lo(regs[o.s]), o.u) /\ RLe(o.u, Hi(regs[o.s])))
    [] o.op = "merge"  -> /\ Feasible(regs[o.a], regs[o.b], o.ca, o.cb)
                          /\ Plan = "refuse" \/ MergeErrs(regs[o.a], regs[o.b], Len(o.ca) + Len(o.cb)) = {}
    [] o.op = "rebuild" -> Len(U0(regs[o.a])) = Len(P0(regs[o.b])) + regs[o.a].p + 1
    [] OTHER -> TRUE

NewOrd(o, post) ==
  [s \in DOMAIN post |->
     CASE o.op \in {"insert", "split", "reverse"} -> ord[o.s]
       [] o.op = "deriv" -> ord[o.s] + o.k
       [] o.op \in {"edit", "rebuild"} -> -2
       [] o.op = "merge" -> IF ord[o.a] = ord[o.b] THEN ord[o.a] ELSE -1
       [] OTHER -> 0]

(***************************************************************************)
(* The state machine.                                                      *)
(***************************************************************************)
NoOp == [o |-> [op |-> "start"], x |-> [res |-> "ok", post |-> <<>>]]
Init == regs = <<>> /\ gh = <<>> /\ ord = <<>> /\ hist = <<>> /\ prev = <<>> /\ last = NoOp
Load(ops) ==
  /\ hist' = ops
  /\ regs' = [j \in 1..Len(ops) |-> MkCurve(ops[j].p, ops[j].U, ops[j].P)]
  /\ gh' = [j \in 1..Len(ops) |-> NewGhost(MkCurve(ops[j].p, ops[j].U, ops[j].P))]
  /\ ord' = [j \in 1..Len(ops) |-> 0]
  /\ prev' = regs'
  /\ last' = NoOp
First1 ==
  /\ hist = <<>>
  /\ \E p \in Degrees :
       IF Plan = "refuse" THEN \E m \in Misfits(p) : Load(m)
       ELSE IF Two THEN \E U \in StartKnots(p), W \in StartKnots(p) : Load(Both(p, U, W))
       ELSE \E U \in (IF Plan = "open" THEN OpenStarts(p) ELSE StartKnots(p)) : Load(One1(p, U))
Starts == IF Two THEN 2 ELSE 1
Step ==
  /\ hist # <<>> /\ Len(hist) < Starts + Depth
  /\ \E kind \in Steps[Len(hist) - Starts + 1] : \E o \in Ops(kind) :
       /\ Possible(o)
       /\ LET x == Do(regs, o)
          IN /\ regs' = TLCEval(x.post @@ regs)
             /\ gh' = TLCEval((IF o.op \in {"insert", "split", "reverse"} /\ x.res = "err"
                               THEN <<>> ELSE DoGhost(regs, gh, o, x.post)) @@ gh)
             /\ ord' = (IF x.res = "ok" THEN NewOrd(o, x.post) ELSE <<>>) @@ ord
             /\ hist' = Append(hist, o)
             /\ prev' = regs
             /\ last' = [o |-> o, x |-> x]
Next == First1 \/ Step
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Export.                                                                 *)
(***************************************************************************)
Script == [j \in 1..Len(hist) |->
            IF hist[j].op = "eval"
            THEN [op |-> "eval", s |-> hist[j].s, qs |-> <<[u |-> hist[j].u, k |-> hist[j].k]>>]
            ELSE hist[j]]
Twin ==
  LET dim == Dim(hist[1].P)
      top == CHOOSE m \in DOMAIN ord : \A s \in DOMAIN ord : s <= m
      t == last.o[IF last.o.op \in {"deriv", "reverse", "merge"} THEN "d" ELSE "s"]
      within(x) == RAdd(Lo(regs[t]), RMul(x, RSub(Hi(regs[t]), Lo(regs[t]))))
      ev == <<[op |-> "eval", s |-> t,
               qs |-> <<[u |-> within(Rat(3, 16)), k |-> 0], [u |-> within(Rat(13, 16)), k |-> 1]>>]>>
  IN << [op |-> "twin", ops |-> hist \o ev,
         ord |-> [j \in 1..(top + 1) |-> IF j - 1 \in DOMAIN ord THEN ord[j - 1] ELSE 0],
         sc |-> [c \in 1..dim |-> IF c % 3 = 0 THEN Rat(-3, 2) ELSE RInt(c)],
         sh |-> [c \in 1..dim |-> Rat(7 * c, 2)],
         mag |-> [c \in 1..dim |-> One]] >>
Exported == (hist # <<>> /\ Len(hist) = Starts + Depth) =>
              IF Plan \in {"twin", "twin-merge"} THEN Emit(Twin) ELSE Emit(Script)

(***************************************************************************)
(* Invariants.                                                             *)
(***************************************************************************)
Is(op) == last.o.op = op
Did(op) == last.o.op = op /\ last.x.res = "ok"
Changed == DOMAIN last.x.post

AllWellFormed == Plan # "refuse" => \A s \in Changed :
                   IF Plan = "open" THEN OpenFormed(regs[s]) ELSE WellFormed(regs[s])
AllCoherent   == \A s \in Changed : Coherent(regs[s])
AllDenote     == Plan # "refuse" => \A s \in Changed : Denotes(regs[s], gh[s])
\* Moving all points of the start moves a curve, and leaves derivatives alone
Affine == Plan # "refuse" =>
            \A s \in Changed : \A j \in 1..Len(P0(regs[s])) :
              ord[s] >= 0 => RSum(P0(regs[s])[j]) = IF ord[s] = 0 THEN One ELSE Zero

InsertRight ==
  Is("insert") =>
    LET o == last.o
        c == prev[o.s]
        d == regs[o.s]
        m == Mult(U0(c), o.u)
        y == Len(P0(d)) - Len(P0(c))
        all == {U0(d)[j] : j \in DOMAIN U0(d)}
    IN IF ~InRange(c, o.u) THEN last.x.res = "err" /\ d = c
       ELSE /\ (last.x.res = "ok") <=> (m + o.x <= c.p + 1)
            /\ y = IF m + o.x <= c.p + 1 THEN o.x ELSE c.p + 1 - m
            /\ Mult(U0(d), o.u) = m + y
            /\ \A v \in all \ {o.u} : Mult(U0(d), v) = Mult(U0(c), v)
            /\ Len(U0(d)) = Len(U0(c)) + y
            /\ d.p = c.p
            /\ (y > 0) => Fits(d, o.u)
            \* points whose support does not contain u are untouched
            /\ \A j \in 0..N0(c) :
                 /\ RLt(At(U0(c), j + c.p + 1), o.u) => At(P0(d), j) = At(P0(c), j)
                 /\ RLt(o.u, At(U0(c), j)) => At(P0(d), j + y) = At(P0(c), j)
\* never more than p+1 equal knots (a derivative has those of its curve, with lower p)
Multiplicities ==
  \A s \in {t \in Changed : ord[t] >= -1} : \A j \in DOMAIN U0(regs[s]) : Mult(U0(regs[s]), U0(regs[s])[j]) <= regs[s].p + 1 + ord[s]

SplitRight ==
  Is("split") =>
    LET o == last.o
        c == prev[o.s]
        m == Mult(U0(c), o.u)
        l == regs[o.l]
        r == regs[o.r]
    IN IF ~InRange(c, o.u) THEN last.x.res = "err" /\ regs = prev
       ELSE /\ (last.x.res = "ok") <=> (m <= c.p)
            /\ last.x.res = "err" => regs = prev
            /\ last.x.res = "ok" =>
                 /\ l.p = c.p /\ r.p = c.p
                 /\ Len(U0(l)) + Len(U0(r)) = Len(U0(c)) + 2 * (c.p + 1) - m
                 \* each part is clamped where it was cut
                 /\ \A j \in 0..l.p : At(Rev(U0(l)), j) = IF o.nl THEN One ELSE o.u
                 /\ \A j \in 0..r.p : At(U0(r), j) = IF o.nr THEN Zero ELSE o.u
                 /\ IF o.nl THEN First(U0(l)) = Zero ELSE Sub(U0(l), 0, c.p) = Sub(U0(c), 0, c.p)
                 /\ IF o.nr THEN Last(U0(r)) = One ELSE Sub(Rev(U0(r)), 0, c.p) = Sub(Rev(U0(c)), 0, c.p)
                 /\ Plan # "open" =>
                      /\ IF o.nl THEN Clamped(U0(l), l.p, Zero, One) ELSE Clamped(U0(l), l.p, Lo(c), o.u)
                      /\ IF o.nr THEN Clamped(U0(r), r.p, Zero, One) ELSE Clamped(U0(r), r.p, o.u, Hi(c))
                 /\ P0(r)[1] = Eval(U0(c), c.p, P0(c), o.u, 0)
                 /\ c.p > 0 => Last(P0(l)) = P0(r)[1]
                 /\ P0(l)[1] = P0(c)[1] /\ Last(P0(r)) = Last(P0(c))

\* parameters inside the spans of c
Samples(c) == {Between(At(U0(c), l), At(U0(c), l + 1), j, 2) : l \in Spans(U0(c), c.p), j \in 0..1}
ReverseRight ==
  Did("reverse") =>
    LET c == prev[last.o.s]
        d == regs[last.o.d]
    IN /\ ReverseCurve(d) = c
       /\ P0(d)[1] = Last(P0(c))
       /\ \A u \in Samples(c) : \A k \in 0..(c.p + 1) :
            Eval(U0(d), d.p, P0(d), RSub(One, u), k)
              = VScale(IF k % 2 = 0 THEN One ELSE RInt(-1), Eval(U0(c), c.p, P0(c), u, k))
DerivRight ==
  Did("deriv") =>
    LET c == prev[last.o.s]
        d == regs[last.o.d]
    IN /\ d.p = c.p - last.o.k
       /\ \A u \in Samples(c) \cup {Lo(c), Hi(c)} : \A k \in 0..(d.p + 1) :
            Eval(U0(d), d.p, P0(d), u, k) = Eval(U0(c), c.p, P0(c), u, k + last.o.k)

MergeRight ==
  Is("merge") =>
    LET o == last.o
        a == prev[o.a]
        b == prev[o.b]
    IN IF last.x.res = "err"
       THEN regs = prev /\ MergeErrs(a, b, Len(o.ca) + Len(o.cb)) # {}
       ELSE
       LET d  == regs[o.d]
           p  == a.p
           m  == MergeCurves(a, b, o.ca, o.cb)
           A  == MergeRows(U0(a), U0(b), p, o.ca, o.cb)
           x  == m.sa
           shA(j) == VSub(At(m.sa, N0(a) - p + 1 + j), At(P0(a), N0(a) - p + 1 + j))
           shB(j) == VSub(At(m.sb, j), At(P0(b), j))
           X  == Tab(p, shA) \o Tab(p, shB)                 \* the 2p displacements
           U  == U0(d)
           mid == {l \in Spans(U, p) : RLe(At(U, l + 1), Half)}
           up  == {l \in Spans(U, p) : RLe(Half, At(U, l))}
       IN /\ d.p = p
          /\ Len(P0(d)) = Len(P0(a)) + Len(P0(b)) - p
          /\ Mult(U, Half) = 1
          \* the joint of the displaced curves is smooth
          /\ \A k \in 0..(p - 1) :
               EvalOn(U0(a), p, m.sa, N0(a), One, k) = EvalOn(U0(b), p, m.sb, p, Zero, k)
          \* the merged curve is the displaced curves
          /\ mid \cup up = Spans(U, p)
          /\ \A l \in mid : \A j \in 0..p :
               LET u == Between(At(U, l), At(U, l + 1), j, p + 1)
               IN Eval(U, p, P0(d), u, 0) = Eval(U0(a), p, m.sa, RMul(RInt(2), u), 0)
          /\ \A l \in up : \A j \in 0..p :
               LET u == Between(At(U, l), At(U, l + 1), j, p + 1)
               IN Eval(U, p, P0(d), u, 0) = Eval(U0(b), p, m.sb, RSub(RMul(RInt(2), u), One), 0)
          \* constrained points stay
          /\ \A j \in DOMAIN o.ca : Eval(U0(a), p, m.sa, o.ca[j], 0) = Eval(U0(a), p, P0(a), o.ca[j], 0)
          /\ \A j \in DOMAIN o.cb : Eval(U0(b), p, m.sb, o.cb[j], 0) = Eval(U0(b), p, P0(b), o.cb[j], 0)
          \* the displacement is the least one: it lies in the row space of the conditions
          /\ Rank(A \o [c \in 1..Dim(P0(a)) |-> [j \in 1..(2 * p) |-> X[j][c]]]) = Rank(A)
\* A moved point moves the curve by as much as its basis function says, and only on its support
EditRight ==
  Is("edit") =>
    LET o == last.o
        c == prev[o.s]
        d == regs[o.s]
    IN /\ last.x.res = "ok" /\ d.p = c.p /\ Len(P0(d)) = Len(P0(c)) /\ Len(U0(d)) = Len(U0(c))
       /\ o.api = "single" /\ "U" \notin DOMAIN o =>
            \A l \in Spans(U0(c), c.p) : \A i \in 0..c.p :
              LET u == Between(At(U0(c), l), At(U0(c), l + 1), i, c.p + 1)
                  was == Eval(U0(c), c.p, P0(c), u, 0)
                  is  == Eval(U0(d), d.p, P0(d), u, 0)
                  N   == NRow(U0(c), c.p, u)
              IN is = VAdd(was, VComb(N, [j \in DOMAIN P0(c) |-> VSub(P0(d)[j], P0(c)[j])], Dim(P0(c))))
RebuildRight ==
  Is("rebuild") =>
    LET o == last.o
        a == prev[o.a]
        b == prev[o.b]
    IN IF last.x.res = "err" THEN N0(b) < a.p /\ regs = prev
       ELSE /\ regs[o.d].p = a.p /\ U0(regs[o.d]) = U0(a) /\ P0(regs[o.d]) = P0(b)
            /\ o.a = o.b => regs[o.d] = a
            /\ \A s \in DOMAIN prev \ {o.d} : regs[s] = prev[s]
RangeRight == Is("eval") => ((last.x.res = "ok") <=> (Finite(last.o.u) /\ RLe(Zero, last.o.u) /\ RLe(last.o.u, One)))
                            /\ regs = prev
=============================================================================
