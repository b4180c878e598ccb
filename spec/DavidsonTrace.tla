----------------------------- MODULE DavidsonTrace -----------------------------
(* The eigensolver's contract, on recorded runs over integer matrices.  The   *)
(* matrix, the integer eigenvectors W and eigenvalues lam (when known) are     *)
(* given exactly; results are fixed point.                                    *)
EXTENDS Replay, Util
Dot(a, b) == SumTo(Len(a), LAMBDA i : a[i] * b[i])
Col(M, j) == [i \in 1..Len(M) |-> M[i][j]]
Mul(M, x) == [i \in 1..Len(M) |-> Dot(M[i], x)]
\* the claimed spectrum is one: A W = W diag(lam), W orthogonal (up to scale)
Spectral(r) == \A j \in 1..r.N :
  LET w == Col(r.W, j) IN /\ Mul(r.A, w) = [i \in 1..r.N |-> r.lam[j] * w[i]]
                          /\ Dot(w, w) > 0
                          /\ \A k \in 1..j-1 : Dot(w, Col(r.W, k)) = 0
Symmetric(A) == \A i, j \in 1..Len(A) : A[i][j] = A[j][i]
\* eigenvalues with a component in the guess
Seen(r) == {r.lam[j] : j \in {j \in 1..r.N : Dot(Col(r.W, j), r.g) # 0}}
\* indices coupled to the guess through the matrix
RECURSIVE Grow(_, _)
Grow(A, S) == LET S2 == S \cup {j \in 1..Len(A) : \E i \in S : A[i][j] # 0} IN IF S2 = S THEN S ELSE Grow(A, S2)
Coupled(r) == Grow(r.A, {i \in 1..r.N : r.g[i] # 0})
\* a guess that lives in one connected block; with several uncoupled blocks the
\* iteration may stop at an exact eigenvector of one of them
Connected(r) == LET c == Coupled(r) i == CHOOSE i \in c : TRUE IN Grow(r.A, {i}) = c
Reach(r) == {r.lam[j] : j \in {j \in 1..r.N : \E i \in Coupled(r) : r.W[i][j] # 0}}
Converged(r) ==
  /\ r.fin /\ AbsI(r.nrm) <= 1000                     \* | |x|^2 - 1 | <= 1e-7
  /\ r.res <= r.tol + Max2(20, r.tol \div 50)         \* |Ax - l x| <= tol (and rounding)
  /\ r.iter \in 0..Max2(r.maxm, 1)
  \* the pair again, from the recorded fixed-point vector alone
  /\ LET amax == MaxOf({AbsI(r.A[i][j]) : i, j \in 1..r.N}) li == r.l6 \div 1000000 lf == (r.l6 % 1000000) \div 1000 y == Mul(r.A, r.x) IN
       \A i \in 1..r.N : AbsI(y[i] - li * r.x[i] - (lf * r.x[i]) \div 1000) <= amax * r.N + AbsI(li) + 30 + r.tol \div 500000
  \* nothing outside the coupled part
  /\ \A i \in (1..r.N) \ Coupled(r) : r.x[i] = 0
  \* never above the guess
  /\ LET gg == Dot(r.g, r.g) q == Dot(r.g, Mul(r.A, r.g)) IN (r.l6 \div 1000000) * gg <= q + gg
  /\ IF ~Connected(r) THEN r.l6 >= r.ref - Max2(2000, r.tol)
     ELSE IF r.known
     THEN /\ \E ev \in Reach(r) : AbsI(r.l6 - 1000000 * ev) <= 2000
          /\ r.l6 <= 1000000 * MinOf(Seen(r)) + 2000
     \* a loose tolerance may be met at a weakly coupled pair before the lowest one
     ELSE IF r.tol > 100 THEN r.l6 >= r.ref - Max2(2000, r.tol)
     \* a guess orthogonal to the lowest eigenvectors (by a symmetry of the matrix) need not find them
     ELSE r.l6 >= r.ref - 2000 /\ r.l6 <= r.seen + 2000
\* the subspace can grow to the whole coupled space: no excuse for failing,
\* also where a diagonal element equals the Ritz value or an index is decoupled;
\* a guess across uncoupled blocks may leave the correction inside the subspace
MustSucceed(r) == Connected(r) /\ (r.maxm > r.N \/ (r.maxm = r.N /\ Cardinality(Coupled(r)) = r.N))
EigenGuess(r) == \E k \in 1..r.N : r.g[k] # 0 /\ \A i \in 1..r.N : Mul(r.A, r.g)[i] * r.g[k] = Mul(r.A, r.g)[k] * r.g[i]
Dav(r) == /\ Symmetric(r.A) /\ (r.known => Spectral(r))
          /\ \/ r.out = "ok" /\ Converged(r)
             \/ r.out = "fail" /\ ~MustSucceed(r) /\ ~EigenGuess(r)
Unit(x, n, d) == \E i \in 1..n : /\ d[i] = MinOf(Rng(d)) /\ x[i] = 1 /\ \A j \in 1..Len(x) : j # i => x[j] = 0
Guess(r) == Unit(r.x, Len(r.d), r.d)
PGuess(r) ==
  LET own(p) == SubSeq(r.ranks[p].x, 1, r.ranks[p].hi - r.ranks[p].lo)
      whole == FlattenSeq([p \in 1..Len(r.ranks) |-> own(p)]) IN
  /\ \A p \in 1..Len(r.ranks) : /\ r.ranks[p].out = "ok"
       /\ LET x == r.ranks[p].x w == r.ranks[p].hi - r.ranks[p].lo IN \A j \in w+1..Len(x) : x[j] = 7   \* nothing behind the block
  /\ Len(whole) = Len(r.d) /\ Unit(whole, Len(r.d), r.d)
Gs(r) == r.orth <= 1000 /\ AbsI(r.nrm) <= 100 /\ (r.eps >= 1000 => r.dev <= 50)
Accept(r) == \/ r.op = "dav" /\ Dav(r)
             \/ r.op = "guess" /\ Guess(r)
             \/ r.op = "pguess" /\ PGuess(r)
             \/ r.op = "gs" /\ Gs(r)
Judge == Report(Accept(Trace[l]))
================================================================================
