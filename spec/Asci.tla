--------------------------------- MODULE Asci ---------------------------------
(* The perturbative search: score of a determinant d outside the core is      *)
(*    | sum_i c_i <d|H|i> | / | E0 - <d|H|d> |                                *)
(* with E0 a half integer (E2 = 2*E0, odd), everything else integer: scores   *)
(* are exact rationals and compared by cross multiplication.                  *)
EXTENDS Excitations
\* a problem: core (sequence of sets), c (integers), cand (set of determinants),
\* H(_,_) matrix element, keep(h): is the element large enough to count
Num(core, c, H(_, _), keep(_), d) ==
  SumOver(1..Len(core), LAMBDA i : LET h == H(d, core[i]) IN IF keep(h) THEN c[i] * h ELSE 0)
Den2(E2, H(_, _), d) == AbsI(E2 - 2 * H(d, d))
\* sc = function from candidates to <<|num|, den>>
Above(x, y) == x[1] * y[2] > y[1] * x[2]
\* a legal outcome res (sequence) of a search for at most nmax determinants
Legal(res, core, nmax, sc) ==
  LET R == Rng(res) C == Rng(core)
      pos == {d \in DOMAIN sc : sc[d][1] # 0}
      room == nmax - Len(core)
      out == DOMAIN sc \ R  in == R \ C
  IN /\ IsInjSeq(res) /\ C \subseteq R /\ in \subseteq DOMAIN sc
     /\ Len(res) <= nmax
     /\ (Cardinality(pos) <= room => pos \subseteq in)
     /\ (Cardinality(pos) >= room => Len(res) = nmax)
     /\ \A x \in out : \A y \in in : ~Above(sc[x], sc[y])
\* With too many contributions at hand, those not above a tolerance are dropped:
\* at most one per core member for every candidate, so scores are known up to
\* s8/8 = (members) * tolerance.  (score = 2 |num| / den)
AboveBy(x, s8) == 16 * x[1] > s8 * x[2]
LegalPruned(res, core, nmax, sc, s8) ==
  LET R == Rng(res) C == Rng(core)
      room == nmax - Len(core)
      out == DOMAIN sc \ R  in == R \ C
      sure == {d \in DOMAIN sc : AboveBy(sc[d], s8)}
  IN /\ IsInjSeq(res) /\ C \subseteq R /\ in \subseteq DOMAIN sc
     /\ Len(res) <= nmax
     /\ Cardinality(in) >= Min2(room, Cardinality(sure))
     /\ \A x \in out : \A y \in in : 16 * sc[x][1] * sc[y][2] <= 16 * sc[y][1] * sc[x][2] + 2 * s8 * sc[x][2] * sc[y][2]
\* scores of everything within reach of the core, for the integer Hamiltonian k
FF == INSTANCE Fock
Scores(n, norb, k, e2, core, c, th2, js) ==
  LET h == n \div 2 O == 0..norb-1 C == Rng(core)
      HH(x, y) == FF!HElem(x, y, h, LAMBDA p, q : FF!FT(k, p, q), LAMBDA p, q, s, t : FF!FV(k, p, q, s, t))
      keep(x) == x # 0 /\ 2 * AbsI(x) >= th2
      reach == UNION {SinglesSpin(core[i], O, n) \cup (IF js THEN {} ELSE DoublesSpin(core[i], O, n)) : i \in 1..Len(core)} \ C
      \* with only singles, a determinant scores by the core members it is a single of
      HS(x, y) == IF js /\ Cardinality(x \ y) = 2 THEN 0 ELSE HH(x, y)
      all == [d \in reach |-> <<AbsI(Num(core, c, HS, keep, d)), Den2(e2, HH, d)>>]
      touched == {d \in reach : \E i \in 1..Len(core) : keep(HS(d, core[i]))}
  IN [d \in touched |-> all[d]]
\* the members with the largest coefficients (all different), largest first
RECURSIVE Largest(_, _, _)
Largest(c, S, m) ==
  IF m = 0 \/ S = {} THEN <<>>
  ELSE LET i == CHOOSE i \in S : \A j \in S : AbsI(c[i]) >= AbsI(c[j]) IN <<i>> \o Largest(c, S \ {i}, m - 1)
=============================================================================
