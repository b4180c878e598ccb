----------------------------- MODULE PertTrace -------------------------------
EXTENDS Pert, Replay
Vr(r, p, q, s, t) == r.V[p + (q-1) * r.n + (s-1) * r.n * r.n + (t-1) * r.n * r.n * r.n]
EnergiesOK(r) ==
  LET V(p, q, s, t) == Vr(r, p, q, s, t) IN
  r.pad /\ r.same /\ Len(r.eps) = r.n /\ \A p \in 1..r.n : r.eps[p] = OrbE(r.T, V, r.o, p)
\* amplitudes for given energies: numerator over denominator, any integers
AmpsOK(r) ==
  LET V(p, q, s, t) == Vr(r, p, q, s, t) IN
  /\ r.pad /\ r.same
  /\ \A i, j \in 1..r.o, a, b \in 1..r.v :
       LET d == Gap(r.eps, i, j, r.o + a, r.o + b) t == r.t[i + (j-1) * r.o + (a-1) * r.o * r.o + (b-1) * r.o * r.o * r.v]
       IN AbsI(t * d + 1000000 * V(i, r.o + a, j, r.o + b)) <= AbsI(d)
NatOK(r, P) ==
  LET n == r.n IN
  /\ \A i \in 1..n-1 : r.on[i] >= r.on[i+1]
  /\ AbsI(SumSeq(r.on) - 20000 * r.o) <= n
  /\ \A i, j \in 1..n : AbsI(SumTo(n, LAMBDA p : r.c[i][p] * r.c[j][p]) - (IF i = j THEN 100000000 ELSE 0)) <= 40000 * n
  /\ (\A p, q \in 1..n : AbsI(P[p][q]) <= 40000) => \A i, p \in 1..n : AbsI(SumTo(n, LAMBDA q : P[p][q] * r.c[i][q]) - 3600 * ((r.on[i] * r.c[i][p]) \div 10000)) <= 5 * (7200 * n + AbsI(r.on[i]))
DensityOK(r) ==
  LET V(p, q, s, t) == Vr(r, p, q, s, t)
      e == [p \in 1..r.n |-> OrbE(r.T, V, r.o, p)]
      tb == Amps(V, e, r.o, r.v)
      P == Density(tb, r.n, r.o, r.v)
  IN /\ r.pad /\ r.same
     /\ (\A p, q \in 1..r.n : r.P[p][q] = P[p][q])
     /\ Trace0(P) = 7200 * r.o
     /\ r.printed => AbsI(r.e2 * 60 - 10000 * Energy60(tb, V, r.o, r.v)) <= 6000 + AbsI(Energy60(tb, V, r.o, r.v))
     /\ NatOK(r, P)
Accept(r) == \/ r.op = "energies" /\ EnergiesOK(r)
             \/ r.op = "amps" /\ AmpsOK(r)
             \/ r.op = "density" /\ DensityOK(r)
Judge == Report(Accept(Trace[l]))
=============================================================================
