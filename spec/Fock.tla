-------------------------------- MODULE Fock --------------------------------
(* The electronic Hamiltonian as a second-quantised operator on Fock space.  *)
(* A determinant is a set of spin orbitals: alpha p is p, beta p is p + h.   *)
(* T(p,q) and V(p,q,r,s) = (pq|rs) are parameters of every operator.         *)
EXTENDS Util

\* ---- integral tables shared with the harness (harness/integrals.hpp) -----
FT(k, p, q) == LET i == Min2(p, q) j == Max2(p, q) IN ((i*7 + j*13 + i*j*3 + k*5) % 11) - 4
PairIx(p, q) == LET i == Min2(p, q) j == Max2(p, q) IN (j * (j + 1)) \div 2 + i
FV(k, p, q, r, s) == LET x == PairIx(p, q) y == PairIx(r, s) a == Min2(x, y) b == Max2(x, y)
                     IN ((a*5 + b*3 + a*b + k) % 7) - 3

\* ---- ladder operators on <<sign, set>> ------------------------------------
Parity(n) == IF n % 2 = 0 THEN 1 ELSE -1
NBelow(b, S) == Cardinality({x \in S : x < b})
Ann(b, st) == IF b \in st[2] THEN <<st[1] * Parity(NBelow(b, st[2])), st[2] \ {b}>> ELSE <<0, {}>>
Cre(b, st) == IF st[1] # 0 /\ b \notin st[2] THEN <<st[1] * Parity(NBelow(b, st[2])), st[2] \cup {b}>> ELSE <<0, {}>>
Amp(bra, st) == IF st[1] # 0 /\ st[2] = bra THEN st[1] ELSE 0
One(bra, ket, p, q) == Amp(bra, Cre(p, Ann(q, <<1, ket>>)))
\* <bra| a+_p a+_r a_s a_q |ket>
Two(bra, ket, p, q, r, s) == Amp(bra, Cre(p, Cre(r, Ann(s, Ann(q, <<1, ket>>)))))

Al(S, h) == {b \in S : b < h}
Be(S, h) == {b - h : b \in {c \in S : c >= h}}

\* ---- twice the matrix element, straight from the operator ------------------
Twice2Q(bra, ket, norb, h, T(_, _), V(_, _, _, _)) ==
  LET O == 0..norb-1 IN
  SumOver({0, h}, LAMBDA sg : SumOver(O, LAMBDA p : SumOver(O, LAMBDA q :
     2 * T(p, q) * One(bra, ket, p + sg, q + sg))))
  + SumOver({0, h}, LAMBDA sg : SumOver({0, h}, LAMBDA ta :
      SumOver(O, LAMBDA p : SumOver(O, LAMBDA q : SumOver(O, LAMBDA r : SumOver(O, LAMBDA s :
         V(p, q, r, s) * Two(bra, ket, p + sg, q + sg, r + ta, s + ta)))))))

\* ---- Slater-Condon rules ---------------------------------------------------
Between(S, a, b) == LET lo == Min2(a, b) hi == Max2(a, b) IN Cardinality({x \in S : x > lo /\ x < hi})
SignS(S, o, v) == Parity(Between(S, o, v))
SumPairs(A, B, f(_, _)) == SumOver(A, LAMBDA p : SumOver(B, LAMBDA q : f(p, q)))
DiagE(a, b, T(_, _), V(_, _, _, _)) ==
  SumOver(a, LAMBDA p : T(p, p)) + SumOver(b, LAMBDA p : T(p, p))
  + SumOver(a, LAMBDA p : SumOver({q \in a : q < p}, LAMBDA q : V(p,p,q,q) - V(p,q,q,p)))
  + SumOver(b, LAMBDA p : SumOver({q \in b : q < p}, LAMBDA q : V(p,p,q,q) - V(p,q,q,p)))
  + SumPairs(a, b, LAMBDA p, q : V(p,p,q,q))
SingleE(kss, kos, o, v, T(_, _), V(_, _, _, _)) ==   \* ss = string of the excited spin
  SignS(kss, o, v) * (T(v, o) + SumOver(kss, LAMBDA p : V(v,o,p,p) - V(v,p,p,o)) + SumOver(kos, LAMBDA p : V(v,o,p,p)))
DoubleE(kss, o1, o2, v1, v2, V(_, _, _, _)) ==
  SignS(kss, o1, v1) * SignS((kss \ {o1}) \cup {v1}, o2, v2) * (V(v1,o1,v2,o2) - V(v1,o2,v2,o1))
MixedE(ka, kb, o1, v1, o2, v2, V(_, _, _, _)) == SignS(ka, o1, v1) * SignS(kb, o2, v2) * V(v1,o1,v2,o2)
HElem(bra, ket, h, T(_, _), V(_, _, _, _)) ==
  LET ba == Al(bra, h) bb == Be(bra, h) ka == Al(ket, h) kb == Be(ket, h)
      oa == ka \ ba va == ba \ ka ob == kb \ bb vb == bb \ kb
      na == Cardinality(oa) nb == Cardinality(ob)
  IN IF na # Cardinality(va) \/ nb # Cardinality(vb) \/ na + nb > 2 THEN 0
     ELSE CASE na = 0 /\ nb = 0 -> DiagE(ka, kb, T, V)
            [] na = 1 /\ nb = 0 -> SingleE(ka, kb, MinOf(oa), MinOf(va), T, V)
            [] na = 0 /\ nb = 1 -> SingleE(kb, ka, MinOf(ob), MinOf(vb), T, V)
            [] na = 1 /\ nb = 1 -> MixedE(ka, kb, MinOf(oa), MinOf(va), MinOf(ob), MinOf(vb), V)
            [] na = 2 -> DoubleE(ka, MinOf(oa), MaxOf(oa), MinOf(va), MaxOf(va), V)
            [] nb = 2 -> DoubleE(kb, MinOf(ob), MaxOf(ob), MinOf(vb), MaxOf(vb), V)
\* effective orbital energy of orbital o with the strings ss (same) / os (other)
OrbE(o, ss, os, T(_, _), V(_, _, _, _)) ==
  T(o, o) + SumOver(ss, LAMBDA q : V(o,o,q,q) - V(o,q,q,o)) + SumOver(os, LAMBDA q : V(o,o,q,q))

\* ---- density matrices of a vector (dets, c): sequences ----------------------
\* gamma(p,q) = sum_sigma <a+_p a_q>;  2*Gamma(p,q,r,s) = sum_{sigma,tau} <a+_p a+_r a_s a_q>
Gamma1(dets, c, h, p, q) ==
  SumOver({0, h}, LAMBDA sg : SumOver(1..Len(dets), LAMBDA j :
    LET st == Cre(p + sg, Ann(q + sg, <<1, dets[j]>>)) IN
      IF st[1] = 0 THEN 0 ELSE c[j] * SumOver({i \in 1..Len(dets) : dets[i] = st[2]}, LAMBDA i : c[i] * st[1])))
Gamma2x2(dets, c, h, p, q, r, s) ==
  SumOver({0, h}, LAMBDA sg : SumOver({0, h}, LAMBDA ta : SumOver(1..Len(dets), LAMBDA j :
    LET st == Cre(p + sg, Cre(r + ta, Ann(s + ta, Ann(q + sg, <<1, dets[j]>>)))) IN
      IF st[1] = 0 THEN 0 ELSE c[j] * SumOver({i \in 1..Len(dets) : dets[i] = st[2]}, LAMBDA i : c[i] * st[1]))))
QuadForm(dets, c, h, T(_, _), V(_, _, _, _)) ==
  SumPairs(1..Len(dets), 1..Len(dets), LAMBDA i, j : c[i] * c[j] * HElem(dets[i], dets[j], h, T, V))
Norm2(c) == SumOver(1..Len(c), LAMBDA i : c[i] * c[i])
=============================================================================
