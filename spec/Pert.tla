-------------------------------- MODULE Pert ---------------------------------
(* Second-order perturbation theory on integer tables: T is a sequence of     *)
(* rows, V a function of four orbital numbers (chemists' order), both with    *)
(* orbitals 1..n, the first o of them doubly occupied.  Amplitudes are kept   *)
(* 60 times, density matrices 3600 times their value, so that every          *)
(* denominator in 1..6 keeps them whole.                                      *)
EXTENDS Util
OrbE(T, V(_,_,_,_), o, p) == T[p][p] + SumTo(o, LAMBDA i : 2 * V(p, p, i, i) - V(p, i, i, p))
Gap(eps, i, j, a, b) == eps[a] + eps[b] - eps[i] - eps[j]
\* t(i,j,a,b) = (ia|jb) / (e_i + e_j - e_a - e_b)
Amp(V(_,_,_,_), eps, i, j, a, b) == -((60 \div Gap(eps, i, j, a, b)) * V(i, a, j, b))
\* the tables: t[i][j][a][b] with a, b counted from one
Amps(V(_,_,_,_), eps, o, v) ==
  [i \in 1..o |-> [j \in 1..o |-> [a \in 1..v |-> [b \in 1..v |-> Amp(V, eps, i, j, o + a, o + b)]]]]
OO(t, o, v, i, j) == (IF i = j THEN 7200 ELSE 0)
   - 2 * SumTo(o, LAMBDA k : SumTo(v, LAMBDA a : SumTo(v, LAMBDA b : t[i][k][a][b] * (2 * t[j][k][a][b] - t[j][k][b][a]))))
VV(t, o, v, a, b) ==
   2 * SumTo(o, LAMBDA i : SumTo(o, LAMBDA j : SumTo(v, LAMBDA c : t[i][j][c][a] * (2 * t[i][j][c][b] - t[i][j][b][c]))))
\* the whole matrix; orbitals beyond o+v stay empty
Density(t, n, o, v) == [p \in 1..n |-> [q \in 1..n |->
   IF p <= o /\ q <= o THEN OO(t, o, v, p, q)
   ELSE IF p > o /\ q > o /\ p <= o + v /\ q <= o + v THEN VV(t, o, v, p - o, q - o) ELSE 0]]
Energy60(t, V(_,_,_,_), o, v) ==
   SumTo(o, LAMBDA i : SumTo(o, LAMBDA j : SumTo(v, LAMBDA a : SumTo(v, LAMBDA b :
     t[i][j][a][b] * (2 * V(o + a, i, o + b, j) - V(o + a, j, o + b, i))))))
Trace0(P) == SumTo(Len(P), LAMBDA p : P[p][p])
=============================================================================
