------------------------------- MODULE CiTrace -------------------------------
EXTENDS Replay, Fock, Eigen
Dets(s) == [i \in 1..Len(s) |-> Rng(s[i])]
El(r, b, k) == HElem(b, k, r.n \div 2, LAMBDA p, q : FT(r.k, p, q), LAMBDA p, q, s, t : FV(r.k, p, q, s, t))
\* the matrix of the list, straight from the second-quantised rules
Matrix(r, d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> LET v == El(r, d[i], d[j]) IN IF 2 * AbsI(v) > r.th2 THEN v ELSE 0]]
Sum1(s) == SumTo(Len(s), LAMBDA i : s[i])
CiOk(r) ==
  LET d == Dets(r.dets) A == Matrix(r, d) n == Len(d)
      start == {i \in 1..n : r.g[i] # 0} c == GrowSet(A, start) gg == Dot(r.g, r.g) IN
  /\ r.H = A /\ Symmetric(A)
  /\ (r.dflt => \A i \in 1..n : A[i][i] >= A[MinOf(start)][MinOf(start)])
  /\ r.out # "differ" /\ r.same
  /\ IF r.out # "ok" THEN r.risky \/ ~r.conn
     ELSE /\ Sum1(r.cnt) = n /\ Len(r.cnt) = r.np
          /\ Eigenpair(A, r.x, r.l6) /\ AbsI(r.nrm) <= 1000 /\ r.res <= 50
          /\ \A i \in (1..n) \ c : r.x[i] = 0
          /\ (r.l6 \div 1000000) * gg <= Dot(r.g, Mul(A, r.g)) + gg
          /\ r.l6 >= r.ref - 20
          /\ (r.conn => r.l6 <= r.seen + 20)     \* the lowest state the guess contains, or below
          \* starting from the answer gives the answer
          /\ r.out2 = "ok" /\ AbsI(r.e2 - r.l6) <= 2 /\ r.res2 <= 50
CasOk(r) ==
  LET d == Dets(r.dets) O == 0..r.norb-1 n == r.norb hh == r.n \div 2 IN
  /\ Cardinality(Rng(d)) = Len(d)
  /\ r.same /\ r.l6 >= r.ref - 20 /\ r.l6 <= r.seen + 20 /\ Len(r.x) = Len(d) /\ r.res <= 50
  /\ \A p \in 1..r.np : LET w == r.ranks[p] IN
       /\ w.out = "ok"
       /\ AbsI(w.con - r.l6) <= 20
       /\ AbsI(SumOver(O, LAMBDA q : w.o1[q + q*n + 1]) - 1000000 * (r.na + r.nb)) <= 10
       \* 10^8 from the recorded vector, 10^6 from the density matrix
       /\ \A i \in O, j \in O : AbsI(Gamma1(d, r.x, hh, i, j) - 100 * w.o1[i + j*n + 1]) <= 40000 * Len(d)
       /\ (n <= 3 => \A i \in O, j \in O, s \in O, t \in O :
             LET At(a, b, u, v) == w.o2[a + n*(b + n*(u + n*v)) + 1] IN
             s <= t => AbsI(Gamma2x2(d, r.x, hh, i, j, s, t) + Gamma2x2(d, r.x, hh, i, j, t, s) - 100 * (At(i, j, s, t) + At(i, j, t, s))) <= 200000 * Len(d))
Accept(r) == \/ r.op = "ci" /\ CiOk(r)
             \/ r.op = "casci" /\ CasOk(r)
Judge == Report(Accept(Trace[l]))
==============================================================================
