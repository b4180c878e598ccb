---------------------------- MODULE ActiveSpace ----------------------------
(* Orbitals split into inactive (doubly occupied), active and virtual ones.  *)
(* The quantities of an active-space calculation as contractions of the      *)
(* integral tables T, V and of the active density matrices G1, G2 (energy =  *)
(* G1.T + G2.V).                                                             *)
EXTENDS Fock
Inact(ni) == 0..ni-1
Act(na) == 0..na-1
FockI(ni, T(_, _), V(_, _, _, _), p, q) == T(p, q) + SumOver(Inact(ni), LAMBDA i : 2*V(p, q, i, i) - V(p, i, i, q))
EInact(ni, T(_, _), V(_, _, _, _)) == SumOver(Inact(ni), LAMBDA i : T(i, i) + FockI(ni, T, V, i, i))
TAct(ni, T(_, _), V(_, _, _, _), x, y) == FockI(ni, T, V, x + ni, y + ni)
VAct(ni, V(_, _, _, _), x, y, z, w) == V(x + ni, y + ni, z + ni, w + ni)
\* twice the active Fock matrix
Fock2A(ni, na, V(_, _, _, _), G1(_, _), p, q) ==
   SumPairs(Act(na), Act(na), LAMBDA v, w : G1(v, w) * (2*V(p, q, v + ni, w + ni) - V(p, w + ni, v + ni, q)))
QAux(ni, na, V(_, _, _, _), G2(_, _, _, _), v, p) ==
   2 * SumOver(Act(na), LAMBDA w : SumPairs(Act(na), Act(na), LAMBDA x, y : G2(v, w, x, y) * V(p, w + ni, x + ni, y + ni)))
FockG(ni, na, T(_, _), V(_, _, _, _), G1(_, _), G2(_, _, _, _), m, p) ==
   IF m < ni THEN 2 * FockI(ni, T, V, p, m) + Fock2A(ni, na, V, G1, p, m)
   ELSE IF m < ni + na THEN SumOver(Act(na), LAMBDA y : FockI(ni, T, V, p, y + ni) * G1(y, m - ni)) + QAux(ni, na, V, G2, m - ni, p)
   ELSE 0
\* energy of the density matrices: inactive energy plus active contraction
EDens(ni, na, T(_, _), V(_, _, _, _), G1(_, _), G2(_, _, _, _)) ==
   EInact(ni, T, V) + SumPairs(Act(na), Act(na), LAMBDA x, y : G1(x, y) * TAct(ni, T, V, x, y))
   + SumPairs(Act(na), Act(na), LAMBDA x, y : SumPairs(Act(na), Act(na), LAMBDA z, w : G2(x, y, z, w) * VAct(ni, V, x, y, z, w)))
\* the same from the diagonal of a generalised Fock matrix (twice)
EFock2(ni, na, T(_, _), G1(_, _), F(_, _)) ==
   SumOver(Inact(ni), LAMBDA i : 2 * T(i, i)) + SumPairs(Act(na), Act(na), LAMBDA x, y : G1(x, y) * T(x + ni, y + ni))
   + SumOver(0..ni+na-1, LAMBDA p : F(p, p))
\* an active determinant (width hh) in the full space (width h)
Embed(d, ni, hh, h) == LET a == Inact(ni) \cup {x + ni : x \in Al(d, hh)} b == Inact(ni) \cup {x + ni : x \in Be(d, hh)}
                       IN a \cup {x + h : x \in b}
=============================================================================
