------------------------------ MODULE MCPoints -------------------------------
(***************************************************************************)
(* All small point sets: as data, as control points, with room for more.   *)
(***************************************************************************)
EXTENDS BSpline, TraceIO

CONSTANTS CountMax, DimMax, Kinds
VARIABLE q
Values(c, d) == {[j \in 1..c |-> [i \in 1..d |-> RInt(f * (10 * j + i))]] : f \in {1, -1}}
                \cup {[j \in 1..c |-> [i \in 1..d |-> Rat(j % 2, i)]]}
None == [op |-> "none"]
Init == q = None
Next == q = None /\ \E c \in 1..CountMax, d \in 1..DimMax, kind \in Kinds : \E Q \in Values(c, d), i \in 0..(c - 1), n \in 0..c :
          q' = [op |-> "pq", Q |-> Q, kind |-> kind, i |-> i, n |-> n]
Spec == Init /\ [][Next]_q
Exported == q # None => Emit(<<q>>)
\* Reversing twice is nothing; reversing moves point j to the mirrored place
Reversal == q # None =>
              /\ Rev(Rev(q.Q)) = q.Q
              /\ \A j \in 0..(Len(q.Q) - 1) : At(Rev(q.Q), j) = At(q.Q, Len(q.Q) - 1 - j)
=============================================================================
