------------------------- MODULE ExcitationsDesign -------------------------
(* A determinant evolves by moving single electrons between orbitals of one  *)
(* spin.  Checked in every reachable state: the excitation sets are exactly  *)
(* the determinants of the same electron counts at rank 1 and 2, their sizes *)
(* are the binomial products, and the electron counts never change.          *)
EXTENDS Excitations
CONSTANT Norb
N == 2 * Norb
VARIABLES det, na, nb
Init == /\ na \in 0..Norb /\ nb \in 0..Norb
        /\ det = Merge(0..na-1, 0..nb-1, N)
MoveA == \E i \in Alpha(det, N), a \in (0..Norb-1) \ Alpha(det, N) : det' = (det \ {i}) \cup {a}
MoveB == \E i \in Beta(det, N), a \in (0..Norb-1) \ Beta(det, N) : det' = (det \ {i + Norb}) \cup {a + Norb}
Next == (MoveA \/ MoveB) /\ UNCHANGED <<na, nb>>
Spec == Init /\ [][Next]_<<det, na, nb>>
O == 0..Norb-1
H == Space(Norb, na, nb, N)
Conserved == det \in H
SinglesExact == SinglesSpin(det, O, N) = {t \in H : Rank(det, t) = 1}
DoublesExact == DoublesSpin(det, O, N) = {t \in H : Rank(det, t) = 2}
Sizes == LET sa == na * (Norb - na) sb == nb * (Norb - nb) IN
  /\ Cardinality(SinglesSpin(det, O, N)) = sa + sb
  /\ Cardinality(DoublesSpin(det, O, N)) = Binom(na, 2) * Binom(Norb-na, 2) + Binom(nb, 2) * Binom(Norb-nb, 2) + sa * sb
  /\ Cardinality(H) = Binom(Norb, na) * Binom(Norb, nb)
  /\ Cardinality(Residues(det, N)) = Binom(na + nb, 2)
\* every determinant of the space is reached by the move actions (per na, nb
\* the reachable set is H): checked through the distinct-state count.
=============================================================================
