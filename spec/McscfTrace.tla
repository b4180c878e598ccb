------------------------------ MODULE McscfTrace ------------------------------
(* Recorded orbital optimisations.                                            *)
EXTENDS Mcscf, Replay, Eigen
At2(s, n, p, q) == s[p + n*q + 1]
At4(s, n, p, q, u, w) == s[p + n*(q + n*(u + n*w)) + 1]
\* nothing to iterate: everything is exact
ZeroOK(r) ==
  LET T(p, q) == FT(r.k, p, q)  V(p, q, u, s) == FV(r.k, p, q, u, s)
      own == r.off # 0            \* trace of the passed density matrix is off
      d1 == IF own THEN r.g1 ELSE r.a1  d2 == IF own THEN r.g2 ELSE r.a2
      D1(p, q) == At2(d1, r.na, p, q)  D2(p, q, u, s) == At4(d2, r.na, p, q, u, s)
      Fk(m, p) == FockG(r.ni, r.na, T, V, D1, D2, m, p)
      Still == \A a \in r.ni..r.no-1 : \A i \in 0..r.ni+r.na-1 :
                  (i < r.ni \/ a >= r.ni + r.na) => Fk(a, i) = Fk(i, a)
  IN /\ r.pad /\ r.clean
     /\ r.calls = (IF own THEN 1 ELSE 0)
     /\ (own => /\ \A x, y \in 0..r.na-1 : At2(r.ta, r.na, x, y) = TAct(r.ni, T, V, x, y)
                /\ \A x, y, z, w \in 0..r.na-1 : At4(r.va, r.na, x, y, z, w) = VAct(r.ni, V, x, y, z, w))
     /\ r.b1 = d1 /\ r.b2 = d2
     /\ r.E = r.ec + EDens(r.ni, r.na, T, V, D1, D2)
     /\ (r.conv > 0 => r.loose \/ Still)
Near(x, y) == AbsI(x - y) <= Tol6
FreeOK(r) ==
  LET e == r.E6 - r.ec * 1000000  S == Stationary(r.lam, r.ni, r.na)  m == Lowest(r.lam, r.ni, r.na)
      n == Len(r.tr6)  last == r.tr6[n] IN
  /\ r.clean /\ r.calls = n /\ n <= r.max + (IF r.reuse THEN 0 ELSE 1)
  /\ (~r.reuse => n >= 1)
  /\ \A i \in 1..n : r.tr6[i] >= LowSum(r.lam, r.na) * 1000000 - Tol6 /\ r.tr6[i] <= HighSum(r.lam, r.na) * 1000000 + Tol6
  \* energy and active Hamiltonian are of the same orbitals
  /\ (n > 0 /\ r.ni = 0 => Near(e, last))
  /\ (n > 0 /\ r.nv = 0 => Near(e, 2 * 1000000 * SumSeq(r.lam) - last))
  /\ e >= m * 1000000 - Tol6
  \* a tolerance of 1e-2 on the gradient is felt in the energy
  /\ LET t == IF r.tk = 2 THEN Tol6 + 60 * r.par ELSE Tol6 IN
     /\ (r.conv > 0 => /\ \E s \in S : AbsI(e - s * 1000000) <= t
                       /\ r.E6 <= r.S6 + Tol6)
     /\ (r.max >= 200 => AbsI(e - m * 1000000) <= t)
  \* announced before any step: the starting gradient is below tolerance
  /\ (r.conv > 0 /\ n = (IF r.reuse THEN 0 ELSE 1) => r.g0 <= 1001)
  /\ (r.none => r.E6 = r.S6 /\ n = (IF r.reuse THEN 0 ELSE 1))
  /\ r.b1 = [q \in 1..r.na*r.na |-> IF (q-1) % r.na = (q-1) \div r.na THEN 1 ELSE 0]
\* limited steps in the plane of the orbitals pa and pb, downhill: the first
\* goes as far as it may, two go no further than twice the limit
LimitOK(r) ==
  LET o == AbsI(r.off)  da == r.dg[r.pa + 1]  db == r.dg[r.pb + 1]
      New(c, s, p) == LET h2 == c * c + s * s IN
                      IF p = r.pa THEN c * c * da + s * s * db + 2 * c * s * o
                      ELSE IF p = r.pb THEN c * c * db + s * s * da - 2 * c * s * o ELSE h2 * r.dg[p + 1]
      Energy(c, s) == SumOver(0..r.ni+r.na-1, LAMBDA p : (IF p < r.ni THEN 2 ELSE 1) * New(c, s, p))
      \* the energy still falls here
      Falling(c, s) == (c * c - s * s) * o > c * s * (da - db)
      c2 == r.c * r.c - r.s * r.s  s2 == 2 * r.c * r.s
  IN /\ r.calls <= r.steps + 1 /\ r.calls >= 2
     /\ (Falling(r.c, r.s) =>
           \A x, y \in 0..r.na-1 : At2(r.ta, r.na, x, y) = IF x = y THEN New(r.c, r.s, r.ni + x) ELSE 0)
     /\ IF r.steps = 1 THEN /\ (r.conv > 0 => (r.c * r.c - r.s * r.s) * o = r.c * r.s * (da - db))
                            /\ r.E = Energy(r.c, r.s)
        ELSE c2 > 0 /\ Falling(c2, s2) => r.E >= Energy(c2, s2) - 2
\* a step depends on the orbitals it starts from and on nothing else: without
\* extrapolation, going on from where k steps led is going on
ResumeOK(r) == /\ \A i \in 1..Len(r.Es) : AbsI(r.Es[i] - r.E6) <= 2
               /\ \A i \in 1..Len(r.ds) : r.ds[i] <= 1
               /\ Len(r.Es) = r.steps - 1
\* interacting electrons whose best orbitals are known
CasOK(r) ==
  LET T(p, q) == At2(r.T0, r.no, p, q)  V(p, q, u, s) == At4(r.V0, r.no, p, q, u, s)
      d == [i \in 1..Len(r.dets) |-> Rng(r.dets[i])]
      Ta(x, y) == TAct(r.ni, T, V, x, y)  Va(x, y, z, w) == VAct(r.ni, V, x, y, z, w)
      A == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> HElem(d[i], d[j], 32, Ta, Va)]]
      best == (r.ec + EInact(r.ni, T, V)) * 1000000 + r.l6
  IN /\ Cardinality(Rng(d)) = Len(d) /\ Len(d) = Binom(2, r.ua) * Binom(2, r.ub)
     /\ Eigenpair(A, r.x, r.l6)
     /\ \A z \in {<<r.E6, r.c1>>, <<r.F6, r.c2>>, <<r.G6, r.c3>>} :
          \/ Near(z[1], best)
          \* an orbital all but empty or all but full: may stop short, and says so
          \/ r.ua + r.ub # 2 /\ z[2] = 0 /\ AbsI(z[1]) < 1900000000
     /\ r.S6 >= best - Tol6
     /\ AbsI(r.tr6 - 1000000 * (r.ua + r.ub)) <= Tol6
     /\ r.drift9 <= 1000
     /\ (r.rot = 0 => r.calls = 1 /\ Near(r.S6, best))
Accept(r) == CASE r.op = "zero" -> ZeroOK(r)
               [] r.op = "free" -> FreeOK(r)
               [] r.op = "limit" -> LimitOK(r)
               [] r.op = "resume" -> ResumeOK(r)
               [] r.op = "cas" -> CasOK(r)
               [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
==============================================================================
