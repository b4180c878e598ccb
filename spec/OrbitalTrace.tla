---------------------------- MODULE OrbitalTrace ----------------------------
(* Recorded orbital-rotation quantities.                                     *)
EXTENDS Orbital, Replay
PackOK(r) ==
  LET n == r.ni + r.na + r.nv  F == Tab2(n, LAMBDA p, q : fM(r.k, p, q))
  IN /\ r.K = ToMat(r.ni, r.na, r.nv, r.x) /\ r.back = r.x
     /\ r.y = Pack(r.ni, r.na, r.nv, F)
     /\ r.g = GradPack(r.ni, r.na, r.nv, F) /\ r.parts = r.g
     /\ r.og = GradFull(r.ni, r.na, r.nv, F)
DerOK(r) ==
  LET n == r.no  T == TTab(n, r.k)  V == VTab(n, r.kv)
      G1(p, q) == FT(r.k1, p, q)  G2(p, q, u, s) == FV(r.k2, p, q, u, s)
      F == FockTab(n, r.ni, r.na, T, V, G1, G2)
      Gr == GradTab(n, F)
      Td == TwoIx(n, n, T, r.u)  Vd == FourStaged(n, n, V, r.u)
      O == 0..n-1
  IN /\ r.f = F /\ r.g = GradPack(r.ni, r.na, r.nv, F)
     /\ r.hk2 = Hess2Vec(r.ni, r.na, r.nv, T, V, G1, G2, GradFull(r.ni, r.na, r.nv, F), r.x)
     /\ r.dh2 = Diag2(n, r.ni, r.na, r.nv, T, V, G1, F) /\ r.dh2b = r.dh2
     /\ r.sd = [q \in 1..Len(r.g) |-> -r.g[q]]
     /\ r.tt = Td /\ r.vt = Vd /\ r.same
     /\ r.fr = FockTab(n, r.ni, r.na, Td, Vd, G1, G2)
     /\ r.er2 = 2 * Energy(n, r.ni, r.na, Td, Vd, G1, G2) /\ r.er2b = r.er2
     \* central differences of the energy: what every pair's derivative is
     /\ r.hess => /\ \A i \in O : \A a \in i+1..n-1 : r.ng[a + n*i + 1] = M2(Gr, n, a, i)
                  /\ \A i \in O : \A a \in i+1..n-1 : \A j \in O : \A b \in j+1..n-1 :
                        M4(r.nh, n, a, i, b, j) = E2x2(n, r.ni, r.na, T, V, G1, G2, Unit(n, a, i), Unit(n, b, j))
Sin65(w) == CASE w = 0 -> 39 [] w = 1 -> 25 [] OTHER -> 0
Cos65(w) == CASE w = 0 -> 52 [] w = 1 -> 60 [] OTHER -> -65
\* exp(-K) for planes (a,b) with K(a,b) = angle
RotOK(r) == r.u65 = Tab2(r.n, LAMBDA p, q :
   LET S == {x \in Rng(r.pl) : p \in {x[1], x[2]}}
   IN IF S = {} THEN (IF p = q THEN 65 ELSE 0)
      ELSE LET x == CHOOSE y \in S : TRUE IN
           IF p = q THEN Cos65(x[3]) ELSE IF p = x[1] /\ q = x[2] THEN -Sin65(x[3]) ELSE IF p = x[2] /\ q = x[1] THEN Sin65(x[3]) ELSE 0)
Small(x, b) == AbsI(x) <= b
GenOK(r) == Small(r.orth, 10) /\ Small(r.inv, 10) /\ Small(r.dbl, 10) /\ Small(r.gen, 1) /\ Small(r.det, 10)
Accept(r) == CASE r.op = "pack" -> r.pad /\ PackOK(r)
               [] r.op = "der" -> r.pad /\ DerOK(r)
               [] r.op = "rot" -> r.pad /\ RotOK(r)
               [] r.op = "gen" -> GenOK(r)
               [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
