-------------------------------- MODULE Eigen --------------------------------
(* What an eigenpair of an integer symmetric matrix is, on fixed-point        *)
(* results: x scaled by 10^4, eigenvalue by 10^6.                             *)
EXTENDS Util
Dot(a, b) == SumTo(Len(a), LAMBDA i : a[i] * b[i])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
Mul(M, x) == [i \in 1..Len(M) |-> Dot(M[i], x)]
Symmetric(A) == \A i, j \in 1..Len(A) : A[i][j] = A[j][i]
\* indices coupled to a set of indices through the matrix
RECURSIVE GrowSet(_, _)
GrowSet(A, S) == LET S2 == S \cup {j \in 1..Len(A) : \E i \in S : A[i][j] # 0} IN IF S2 = S THEN S ELSE GrowSet(A, S2)
MaxAbs(A) == MaxOf({0} \cup {AbsI(A[i][j]) : i, j \in 1..Len(A)})
\* A x = l x to the precision of the recording, x normalised
Eigenpair(A, x, l6) ==
  LET n == Len(A) li == l6 \div 1000000 lf == (l6 % 1000000) \div 1000 y == Mul(A, x) IN
  /\ Len(x) = n
  /\ \A i \in 1..n : AbsI(y[i] - li * x[i] - (lf * x[i]) \div 1000) <= MaxAbs(A) * n + AbsI(li) + 30
  /\ AbsI(Dot(x, x) - 100000000) <= 10000 * n + 10000
==============================================================================
