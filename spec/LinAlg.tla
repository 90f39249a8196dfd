------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Exact linear algebra on matrices given as sequences of rows.            *)
(***************************************************************************)
EXTENDS Rational, TLC

\* <<F(0), ..., F(n-1)>>, evaluated once
Tab(n, F(_)) == TLCEval([i \in 1..n |-> F(i - 1)])

\* A A^T for a sequence of rows
Gram(A) == Tab(Len(A), LAMBDA i : Tab(Len(A), LAMBDA j : RDot(A[i + 1], A[j + 1])))

\* Row reduction of the augmented matrix M, columns c..nc, rows below r; dependent
\* columns are skipped.  The result is in reduced row echelon form.
RECURSIVE Reduce(_, _, _, _)
Reduce(M, r, c, nc) ==
  IF r > Len(M) \/ c > nc THEN M
  ELSE LET piv == {i \in r..Len(M) : M[i][c] # Zero}
       IN IF piv = {} THEN Reduce(M, r, c + 1, nc)
          ELSE LET q   == CHOOSE i \in piv : \A j \in piv : i <= j
                   row == TLCEval(VScale(RDiv(One, M[q][c]), M[q]))
                   sw  == [M EXCEPT ![q] = M[r], ![r] = row]
                   M2  == TLCEval([i \in 1..Len(M) |->
                            IF i = r \/ sw[i][c] = Zero THEN sw[i]
                            ELSE VAxpy(RNeg(sw[i][c]), row, sw[i])])
               IN Reduce(M2, r + 1, c + 1, nc)

\* A solution of A X = B (B a sequence of rows, one per equation), the free unknowns
\* being zero; [ok |-> FALSE] if there is none.
Solve(A, B) ==
  LET na == Len(A[1])
      nb == Len(B[1])
      R  == Reduce([i \in 1..Len(A) |-> TLCEval(A[i] \o B[i])], 1, 1, na)
      lead(i) == {c \in 1..na : R[i][c] # Zero}
      first(S) == CHOOSE c \in S : \A d \in S : c <= d
      ok == \A i \in 1..Len(R) : lead(i) = {} => \A j \in 1..nb : R[i][na + j] = Zero
      rowOf == TLCEval([c \in 1..na |->
                 LET rs == {i \in 1..Len(R) : lead(i) # {} /\ first(lead(i)) = c}
                 IN IF rs = {} THEN 0 ELSE CHOOSE i \in rs : TRUE])
  IN IF ok THEN [ok |-> TRUE,
                 x  |-> TLCEval([c \in 1..na |-> IF rowOf[c] = 0 THEN VZero(nb)
                          ELSE [j \in 1..nb |-> R[rowOf[c]][na + j]]])]
     ELSE [ok |-> FALSE]

\* Number of independent rows
Rank(A) == LET R == Reduce(A, 1, 1, Len(A[1]))
           IN Len(SelectSeq(R, LAMBDA r : \E c \in 1..Len(r) : r[c] # Zero))

\* The solution of A X = B with the smallest Frobenius norm: A^T (A A^T)^-1 B
MinNorm(A, B) ==
  LET y == Solve(Gram(A), B)
      nb == Len(B[1])
  IN IF ~y.ok THEN y
     ELSE [ok |-> TRUE,
           x |-> Tab(Len(A[1]), LAMBDA c :
                   VComb([i \in 1..Len(A) |-> A[i][c + 1]], y.x, nb))]
=============================================================================
