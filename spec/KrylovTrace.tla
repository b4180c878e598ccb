----------------------------- MODULE KrylovTrace -----------------------------
(* Recorded runs of the legacy solver's Krylov methods.  Fixed point: matrix-  *)
(* like numbers over S, vectors over Z.                                        *)
EXTENDS Replay, Legacy
S == 2000
Z == 5000
Dot(a, b) == SumTo(Len(a), LAMBDA i : a[i] * b[i])
RowMax(A) == MaxOf({SumTo(Len(A), LAMBDA j : AbsI(A[i][j])) : i \in 1..Len(A)})
Symmetric(A) == \A i, j \in 1..Len(A) : A[i][j] = A[j][i]
Unit(x) == AbsI(Dot(x, x) - Z * Z) <= 3 * Z * (Len(x) + 1)
Orth(u) == \A i \in 1..Len(u) : Unit(u[i]) /\ \A j \in 1..i-1 : AbsI(Dot(u[i], u[j])) <= 3 * Z * (Len(u[i]) + 1)
\* | A x - e x | small (e over S, x over Z)
Slack(A, e) == S * RowMax(A) + 3 * (Z + AbsI(e)) + 20000
Pair(A, e, x) == \A i \in 1..Len(A) : AbsI(S * Dot(A[i], x) - e * x[i]) <= Slack(A, e)
\* tridiagonal: al[1..k], be[2..k] over S
TriAt(al, be, k, i, y) == al[i] * y[i] + (IF i > 1 THEN be[i] * y[i-1] ELSE 0) + (IF i < k THEN be[i+1] * y[i+1] ELSE 0)
\* the lowest eigenpair of a tridiagonal matrix with positive off-diagonals is
\* the one whose components alternate in sign
Lowest(al, be, k, e, y) ==
  /\ Len(y) = k /\ Unit(y)
  /\ \A i \in 1..k : AbsI(TriAt(al, be, k, i, y) - e * y[i]) <= 3 * (Z + MaxOf({AbsI(al[j]) + AbsI(be[j]) + AbsI(be[j+1]) : j \in 1..k})) + 20000
  /\ LET sg == IF \E j \in 1..k : (y[j] > 0 /\ j % 2 = 1) \/ (y[j] < 0 /\ j % 2 = 0) THEN 1 ELSE -1
         near == 60 IN
     \A j \in 1..k : (IF j % 2 = 1 THEN sg ELSE -sg) * y[j] >= -near
LanOk(r) ==
  LET A == r.A n == Len(A) m == r.m q == r.q al == r.al be == r.be v == r.v nv == Dot(v, v) IN
  /\ r.out = <<1, 1, 1>> /\ Symmetric(A)
  /\ r.lal = r.nl /\ r.lbe = r.nl + 1
  /\ m \in 1..Min2(r.nl, n) /\ Len(q) = m /\ Orth(q)
  \* nothing is made up after the space is exhausted
  /\ \A k \in (m+1)..r.nl : al[k] = 0 /\ be[k+1] = 0
  \* the first vector is the normalised start, its norm is kept
  /\ AbsI((be[1] \div 20) * (be[1] \div 20) - 10000 * nv) <= 300 + be[1] \div 5
  /\ \A i \in 1..n : AbsI(q[1][i] * be[1] - S * Z * v[i]) <= be[1] + 2 * Z
  \* the three-term recurrence
  /\ \A k \in 1..m : be[k+1] >= 0 /\ \A i \in 1..n :
        LET rest == S * Dot(A[i], q[k]) - al[k] * q[k][i] - (IF k > 1 THEN be[k] * q[k-1][i] ELSE 0) IN
        IF k < m THEN AbsI(rest - be[k+1] * q[k+1][i]) <= Slack(A, al[k]) + 3 * (be[k] + be[k+1])
        ELSE AbsI(rest) <= Slack(A, al[k]) + be[k+1] * (Z + 3)
  \* it stops short only when the space is exhausted
  /\ m < r.nl => be[m+1] = 0
  \* energies: lowest Ritz values of the leading blocks
  /\ r.its >= 1 /\ Len(r.te) = Min2(r.its, m)
  /\ \A k \in 1..Len(r.te) : Lowest(al, be, k, r.te[k], r.ty[k])
  /\ \A k \in 2..Len(r.te) : r.te[k] <= r.te[k-1] + 2
  /\ r.its <= m => /\ AbsI(r.e1 - r.te[r.its]) <= 2
                   /\ Lowest(al, be, r.its, r.e1, r.y)
                   \* convergence is announced only if two energies agree or nothing is left
                   /\ \/ be[r.its+1] <= 1
                      \/ r.its > 1 /\ r.te[r.its-1] - r.te[r.its] <= r.etol + 3
                   \* and announced at once
                   /\ \A k \in 2..r.its-1 : r.te[k-1] - r.te[k] >= r.etol - 3
                   /\ \A i \in 1..n : AbsI(Z * r.x1[i] - SumTo(r.its, LAMBDA k : r.y[k] * q[k][i])) <= 2 * Z * (n + 1)
  /\ r.its > m => r.nl < n           \* more iterations only where the record of the vectors stops earlier
  /\ AbsI(r.e2 - r.e1) <= 3 /\ Unit(r.x2) /\ Unit(r.x1)
  /\ \A i \in 1..n : AbsI(AbsI(r.x2[i]) - AbsI(r.x1[i])) <= 30
  /\ r.tight => Pair(A, r.e1, r.x1) /\ Pair(A, r.e2, r.x2)
  \* the value belongs to the vector
  /\ AbsI(SumTo(n, LAMBDA i : ((S * Dot(A[i], r.x2)) \div Z) * r.x2[i]) \div S - (r.e2 * (Z \div 10)) \div (S \div 10)) <= 40 + 12 * RowMax(A)
  /\ r.std > 0 => /\ r.out3 /\ Unit(r.x3)
                  /\ r.e3 <= r.e1 + 3
                  /\ r.tight => AbsI(r.e3 - r.e1) <= 3 /\ Pair(A, r.e3, r.x3)
EigOk(r) == LET n == Len(r.A) IN
  /\ r.ok /\ Len(r.w) = n /\ Len(r.u) = n
  /\ \A j \in 1..n : Len(r.u[j]) = n /\ Pair(r.A, r.w[j], r.u[j])
  /\ Orth(r.u)
  /\ \A j \in 1..n-1 : r.ord * r.w[j] <= r.ord * r.w[j+1]
  /\ AbsI(SumSeq(r.w) - S * SumTo(n, LAMBDA i : r.A[i][i])) <= 2 * n
QrOk(r) == LET m == Len(r.A) n == Len(r.A[1]) col(j) == [i \in 1..m |-> r.q[i][j]] IN
  /\ r.ok /\ Orth([j \in 1..n |-> col(j)]) /\ Len(r.r) = n
  /\ \A i \in 1..n : Len(r.r[i]) = n /\ \A j \in 1..i-1 : r.r[i][j] = 0
  /\ \A i \in 1..m, j \in 1..n : AbsI(SumTo(n, LAMBDA k : r.q[i][k] * r.r[k][j]) - S * Z * r.A[i][j]) <= n * (Z + 10 * S * 4)
\* ---- resolvents -------------------------------------------------------------
\* complex numbers <<re, im>>
CMulI(a, k) == <<a[1] * k, a[2] * k>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSum(n, f(_)) == FoldLeftDomain(LAMBDA a, i : CAdd(a, f(i)), <<0, 0>>, [i \in 1..n |-> 0])
CNear(a, b, t) == AbsI(a[1] - b[1]) <= t /\ AbsI(a[2] - b[2]) <= t
\* A vector that turns out dependent still takes a place in the band: the space is
\* exhausted when the first L of V, A V, A A V, .. span all there is.
\* Ranks are taken modulo two primes.
RECURSIVE PowM(_, _, _)
PowM(x, e, p) == IF e = 0 THEN 1 ELSE IF e % 2 = 1 THEN (x * PowM(x, e - 1, p)) % p ELSE PowM((x * x) % p, e \div 2, p)
Scale(v, a, p) == [i \in 1..Len(v) |-> (v[i] * a) % p]
Reduce(v, basis, p) ==
  FoldLeft(LAMBDA u, b : LET a == u[b[1]] IN [i \in 1..Len(u) |-> (u[i] + (p - a) * b[2][i]) % p], v, basis)
Insert1(basis, v, p) ==
  LET u == Reduce(v, basis, p) nz == {i \in 1..Len(u) : u[i] # 0} IN
  IF nz = {} THEN basis ELSE LET c == MinOf(nz) IN Append(basis, <<c, Scale(u, PowM(u[c], p - 2, p), p)>>)
Rank(vs, p) == Len(FoldLeft(LAMBDA b, v : Insert1(b, v, p), <<>>, vs))
ModP(v, p) == [i \in 1..Len(v) |-> ((v[i] % p) + p) % p]
Blocks(A, V, N, p) ==
  LET nb == Len(V) Ap == [i \in 1..N |-> ModP(A[i], p)]
      mul(v) == [i \in 1..N |-> FoldLeftDomain(LAMBDA a, j : (a + Ap[i][j] * v[j]) % p, 0, v)] IN
  FoldLeftDomain(LAMBDA K, j : Append(K, mul(K[j])), [b \in 1..nb |-> ModP(V[b], p)], [j \in 1..nb * N |-> 0])
ExhP(r, p) == LET K == Blocks(r.A, r.V, Len(r.A), p) IN <<Rank(SubSeq(K, 1, Min2(r.nl, Len(K))), p), Rank(K, p)>>
Exhausted(r) == LET a == ExhP(r, 10007) b == ExhP(r, 20011) IN Max2(a[1], b[1]) = Max2(a[2], b[2])
ResOk(r) ==
  LET A == r.A N == Len(A) nb == Len(r.V) L == r.nl sg == IF r.part THEN -1 ELSE 1
      T == r.T
      exh == Exhausted(r) vmax == MaxOf({SumTo(N, LAMBDA i : AbsI(r.V[b][i])) : b \in 1..nb}) IN
  /\ r.ok /\ r.nl2 = L /\ Len(T) = L /\ (\A i \in 1..L : Len(T[i]) = L) /\ Symmetric(A)
  \* band matrix, symmetric
  /\ \A i, j \in 1..L : T[i][j] = T[j][i] /\ (AbsI(i - j) > nb => T[i][j] = 0)
  \* V = Q R
  /\ \A b \in 1..nb, i \in 1..N : AbsI(SumTo(nb, LAMBDA k : r.q[k][i] * r.R[k][b]) - 300 * S * r.V[b][i]) <= nb * (300 + 10 * S)
  \* moments of the start block: E^T T^k E = Q^T A^k Q
  /\ LET M1(b) == [i \in 1..N |-> Dot(A[i], r.q[b])]
         T1(b) == [i \in 1..L |-> T[i][b]]
         cut(b) == [i \in 1..L |-> T[i][b] \div 10]
         full == L \div nb rm == RowMax(A) IN
     \A b, c \in 1..nb :
       /\ AbsI(Dot(r.q[b], M1(c)) - 45 * T[b][c]) <= 300 * (rm + 2) * (N + 1)               \* 300^2 / 2000 = 45
       /\ (full >= 2 \/ exh) =>
          /\ AbsI(Dot(M1(b), M1(c)) - 9 * (Dot(cut(b), cut(c)) \div 4)) <= 330 * (rm + 2) * (rm + 2) * (N + 1)     \* 300^2 = 90000 = 200^2 * 9/4
  \* the answers: solutions of (w + sg (T - E0)) x = R, and res = R^T x
  /\ Len(r.res) = Len(r.w)
  /\ \A k \in 1..Len(r.w) :
       LET w == r.w[k] res == r.res[k] X == r.X[k] Y == r.XT[k]
           sh == <<w[1] - sg * r.E0, w[2]>> big == MaxOf({AbsI(sh[1]) + AbsI(sh[2]), 1}) IN
       /\ \A b \in 1..nb : \A i \in 1..N :
            CNear(CAdd(CMul(sh, X[b][i]), CSum(N, LAMBDA j : CMulI(X[b][j], sg * A[i][j]))), <<S * r.V[b][i], 0>>, big + RowMax(A) + 2)
       /\ \A b \in 1..nb : \A i \in 1..L :
            LET lhs == CSum(L, LAMBDA j : <<(sg * T[i][j] * Y[b][j][1]) \div S, (sg * T[i][j] * Y[b][j][2]) \div S>>)
                rhs == IF i <= nb THEN r.R[i][b] ELSE 0 IN
            CNear(CAdd(CMul(sh, Y[b][i]), lhs), <<rhs, 0>>, 2 * big + 3 * RowMax(A) + 4 * L + 20)
       /\ \A b, c \in 1..nb :
            \* from the recorded band matrix
            /\ LET z == CSum(Min2(L, nb), LAMBDA i : <<(r.R[i][b] * Y[c][i][1]) \div S, (r.R[i][b] * Y[c][i][2]) \div S>>) IN CNear(res[b][c], z, 10 * vmax + 10 * nb)
            \* from the matrix itself
            /\ exh => CNear(res[b][c], CSum(N, LAMBDA i : CMulI(X[c][i], r.V[b][i])), 3 * vmax + 10)
\* ---- exact diagonalisation ---------------------------------------------------
EdOk(r) ==
  LET d == [i \in 1..Len(r.d) |-> Rng(r.d[i])] n == r.n O == 0..n-1 c == [i \in 1..Len(r.x3) |-> r.x3[i] \div 5] IN
  /\ Rng(d) = {x \in SUBSET (0..2*n-1) : Cardinality(Al(x, n)) = r.a /\ Cardinality(Be(x, n)) = r.b} /\ Cardinality(Rng(d)) = Len(d)
  /\ \A i, j \in 1..Len(d) : r.A[i][j] = ZH(r.z, r.k, n, d[i], d[j])
  /\ LanOk(r)
  /\ r.outed /\ AbsI(r.eed - (r.e3 + S * r.core)) <= 3
  /\ AbsI(r.erdm - r.eed) <= 10
  /\ r.l2 = n * n * n * n
  /\ \A p, q \in O : AbsI(1000 * r.g1[p + q * n + 1] - Gamma1(d, c, n, p, q)) <= 12000
Accept(r) == CASE r.op = "lan" -> LanOk(r)
               [] r.op = "eig" -> EigOk(r)
               [] r.op = "qr" -> QrOk(r)
               [] r.op = "res" -> ResOk(r)
               [] r.op = "ed" -> EdOk(r)
               [] r.op = "threads" -> r.size > 0 /\ \A i \in 1..Len(r.d) : r.d[i] <= 1
               [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
==============================================================================
