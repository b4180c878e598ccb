------------------------------- MODULE Lobpcg -------------------------------
(* What a run of the block eigensolver may return.                           *)
EXTENDS Eigen
Work(N, K) == 8*N*K + 9*K*K + 5*K
All(s, n, b) == \A i \in 1..n : s[i] < b
\* Ritz values of one iteration against those of the one before: none rises
Falls(u, v, tol) == \A i \in 1..Len(u) : v[i] <= u[i] + tol
Tr(A, S) == SumOver(S, LAMBDA i : A[i][i])
=============================================================================
