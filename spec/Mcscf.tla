-------------------------------- MODULE Mcscf --------------------------------
(* Orbital optimisation: what a run returns, as a function of the Hamiltonian *)
(* it was given and of the density matrices of its active-space solver.       *)
EXTENDS ActiveSpace
Tol6 == 3
\* sums 2*(sum of inactive) + (sum of active) over disjoint choices of levels:
\* the stationary energies of non-interacting electrons, active part half full
RECURSIVE Picks(_, _)
Picks(S, k) == IF k = 0 THEN {{}} ELSE UNION {{c \cup {x} : c \in {d \in Picks(S, k-1) : \A y \in d : y < x}} : x \in S}
SumS(S) == SumOver(S, LAMBDA x : x)
Stationary(lam, ni, na) == LET L == Rng(lam) IN
   UNION {{2 * SumS(I) + SumS(A) : A \in Picks(L \ I, na)} : I \in Picks(L, ni)}
\* the lowest: levels in order
Lowest(lam, ni, na) == SumTo(ni + na, LAMBDA i : (IF i <= ni THEN 2 ELSE 1) * lam[i])
LowSum(lam, n) == SumTo(n, LAMBDA i : lam[i])
HighSum(lam, n) == SumTo(n, LAMBDA i : lam[Len(lam) + 1 - i])
==============================================================================
