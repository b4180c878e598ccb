----------------------------- MODULE PertDesign ------------------------------
(* For every symmetric table (ia|jb) of small integers: the density traces to *)
(* the number of electrons, is symmetric, empties occupied and fills virtual  *)
(* orbitals, and the energy does not rise.                                    *)
EXTENDS Pert
CONSTANT Big
VARIABLES o, v, x, g
vars == <<o, v, x, g>>
Size(a, b) == a * b
Cells(a, b) == {c \in (1..Size(a, b)) \X (1..Size(a, b)) : c[1] <= c[2]}
Init == /\ \E s \in ({<<1, 1>>, <<1, 2>>, <<2, 1>>} \cup (IF Big THEN {<<2, 2>>} ELSE {})) : o = s[1] /\ v = s[2]
        /\ x \in [Cells(o, v) -> IF o * v = 4 THEN {-1, 2} ELSE -2..2] /\ g \in {<<1, 1>>, <<1, 2>>}
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Eps == [p \in 1..o+v |-> IF p <= o THEN 1 - p ELSE g[p - o - (IF p - o > 2 THEN 2 ELSE 0)]]
Ix(i, a) == (i - 1) * v + (a - o)
V(p, q, r, s) == LET i == Ix(Min2(p, q), Max2(p, q)) j == Ix(Min2(r, s), Max2(r, s)) IN x[<<Min2(i, j), Max2(i, j)>>]
Tab == Amps(V, Eps, o, v)
P == Density(Tab, o + v, o, v)
Electrons == Trace0(P) = 7200 * o
Symm == \A p, q \in 1..o+v : P[p][q] = P[q][p]
Emptied == \A p \in 1..o : P[p][p] <= 7200
Fill == \A p \in o+1..o+v : P[p][p] >= 0
Lower == Energy60(Tab, V, o, v) <= 0
=============================================================================
