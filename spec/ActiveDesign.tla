---------------------------- MODULE ActiveDesign ----------------------------
(* For every split of the orbitals and every pair of active determinants:    *)
(* the active Hamiltonian plus the inactive energy has the matrix elements   *)
(* of the full Hamiltonian between the determinants with all inactive        *)
(* orbitals doubly occupied, and the energy of the density matrices of an    *)
(* active vector, whether contracted or recovered from the generalised Fock  *)
(* matrix, is the full-space energy of the vector.                           *)
EXTENDS ActiveSpace
CONSTANTS NMax, Ks
VARIABLES no, ni, na, k, bra, ket
vars == <<no, ni, na, k, bra, ket>>
T(p, q) == FT(k, p, q)
V(p, q, r, s) == FV(k, p, q, r, s)
SpinOrbs(n) == 0..2*n-1
\* determinants of the active space (width na) with the same electron counts
Init == /\ no \in 1..NMax /\ ni \in 0..no /\ na \in 1..no-ni /\ k \in Ks
        /\ bra \in SUBSET SpinOrbs(na) /\ ket = bra
Next == /\ ket' \in {d \in SUBSET SpinOrbs(na) : Cardinality(Al(d, na)) = Cardinality(Al(bra, na)) /\ Cardinality(Be(d, na)) = Cardinality(Be(bra, na))}
        /\ ket = bra
        /\ UNCHANGED <<no, ni, na, k, bra>>
Spec == Init /\ [][Next]_vars
TA(x, y) == TAct(ni, T, V, x, y)
VA(x, y, z, w) == VAct(ni, V, x, y, z, w)
SameElement == HElem(Embed(bra, ni, na, no), Embed(ket, ni, na, no), no, T, V)
               = HElem(bra, ket, na, TA, VA) + (IF bra = ket THEN EInact(ni, T, V) ELSE 0)
\* the vector 1*bra + 1*ket (or bra alone): density matrices times its norm
Dets == IF bra = ket THEN <<bra>> ELSE <<bra, ket>>
C == IF bra = ket THEN <<1>> ELSE <<1, -1>>
N == Len(C)
G1(p, q) == Gamma1(Dets, C, na, p, q)
G2x2(p, q, r, s) == Gamma2x2(Dets, C, na, p, q, r, s)
Full == [i \in 1..Len(Dets) |-> Embed(Dets[i], ni, na, no)]
\* twice the energy times the norm; G2x2 carries the factor two
ActiveE2 == 2 * N * EInact(ni, T, V)
            + 2 * SumPairs(Act(na), Act(na), LAMBDA x, y : G1(x, y) * TA(x, y))
            + SumPairs(Act(na), Act(na), LAMBDA x, y : SumPairs(Act(na), Act(na), LAMBDA z, w : G2x2(x, y, z, w) * VA(x, y, z, w)))
SameEnergy == ActiveE2 = 2 * QuadForm(Full, C, no, T, V)
\* generalised Fock matrix of N times the state: the inactive part scales with N
NT(p, q) == N * T(p, q)
FG(m, p) == IF m < ni THEN 2 * N * FockI(ni, T, V, p, m) + Fock2A(ni, na, V, G1, p, m)
            ELSE IF m < ni + na THEN SumOver(Act(na), LAMBDA y : FockI(ni, T, V, p, y + ni) * G1(y, m - ni))
                                     + QAux(ni, na, V, G2x2, m - ni, p) \div 2
            ELSE 0
FockEnergy == SumOver(Inact(ni), LAMBDA i : 2 * N * T(i, i)) + SumPairs(Act(na), Act(na), LAMBDA x, y : G1(x, y) * T(x + ni, y + ni))
              + SumOver(0..ni+na-1, LAMBDA p : FG(p, p)) = ActiveE2
=============================================================================
