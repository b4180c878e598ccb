--------------------------- MODULE OrbitalDesign ---------------------------
(* For every split of up to NMax orbitals: packing and unpacking are inverse *)
(* and use every position once; the gradient of a pair is the first          *)
(* derivative of the energy; the Hessian-vector product is the symmetrised   *)
(* second derivative once the active-active part of the gradient is included *)
(* and hence symmetric; the energy is invariant under rotations inside the   *)
(* inactive and the virtual space.                                           *)
EXTENDS Orbital
CONSTANTS NMax, Ks
VARIABLES no, ni, na, k, a, i, b, j
vars == <<no, ni, na, k, a, i, b, j>>
nv == no - ni - na
T == TTab(no, k)
V == VTab(no, k + 2)
G1(p, q) == FT(k + 3, p, q)
G2(p, q, r, s) == FV(k + 5, p, q, r, s)
F == FockTab(no, ni, na, T, V, G1, G2)
G == GradTab(no, F)
Init == /\ no \in 1..NMax /\ ni \in 0..no /\ na \in 0..no-ni /\ k \in Ks
        /\ a \in 0..no-1 /\ i \in 0..no-1 /\ a > i /\ b = a /\ j = i
Next == b = a /\ j = i /\ b' \in 0..no-1 /\ j' \in 0..no-1 /\ b' > j' /\ UNCHANGED <<no, ni, na, k, a, i>>
Spec == Init /\ [][Next]_vars
NP == NPar(ni, na, nv)
Packing == /\ Cardinality(PairSet(ni, na, nv)) = NP
           /\ LET x == [q \in 1..NP |-> q * q - 3] IN Pack(ni, na, nv, ToMat(ni, na, nv, x)) = x
           /\ PairSet(ni, na, nv) = {z \in (0..no-1) \X (0..no-1) : z[1] > z[2] /\ ~(z[1] < ni)
                                       /\ ~(z[1] >= ni /\ z[1] < ni + na /\ z[2] >= ni) /\ ~(z[2] >= ni + na)}
Gradient == M2(G, no, a, i) = E1(no, ni, na, T, V, G1, G2, Unit(no, a, i))
Redundant == (a < ni \/ i >= ni + na) => M2(G, no, a, i) = 0
\* for all pairs: Hessian from the full gradient matrix
Second == LET K == Unit(no, b, j)
              Fx == FockTab(no, ni, na, Rot2(no, T, K), Rot4(no, V, K), G1, G2)
          IN 2 * M2(GradTab(no, Fx), no, a, i) + M2(Comm(no, G, K), no, a, i) = E2x2(no, ni, na, T, V, G1, G2, Unit(no, a, i), K)
=============================================================================
