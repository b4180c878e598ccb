------------------------------- MODULE Files -------------------------------
(* Files of wavefunctions, integral tables and density matrices.  A file     *)
(* system maps paths to contents; a write replaces the whole content of its  *)
(* path and nothing else, a read returns what the last write of the path     *)
(* put there, or refuses.  An integral file is a set of lines                *)
(* <<p,q,r,s,value>> (orbitals counted from one, zero = no index), whose     *)
(* meaning is independent of the order and of the representative chosen for  *)
(* every symmetry class.                                                     *)
EXTENDS Util
None == [k |-> "none"]
Wf(norb, st, c) == [k |-> "wf", norb |-> norb, st |-> st, c |-> c]
Fci(lines) == [k |-> "fci", lines |-> lines]
Bad(lines) == [k |-> "bad", lines |-> lines]
Legal(x) == \A i \in 1..4 : x[i] >= 0
Rdm(n, a, b) == [k |-> "rdm", n |-> n, a |-> a, b |-> b, cut |-> FALSE]
\* ---------------------------------------------------------- wavefunctions
\* determinants as pairs (alpha orbitals, beta orbitals)
Header(norb, st) == <<Len(st), norb, Len(st[1][1]), Len(st[1][2])>>
\* --------------------------------------------------------- integral files
Kind(x) == IF x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 THEN "core"
           ELSE IF x[1] # 0 /\ x[2] # 0 /\ x[3] # 0 /\ x[4] # 0 THEN "two"
           ELSE IF x[1] # 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 THEN "energy" ELSE "one"
NOrb(L) == IF L = {} THEN 0 ELSE MaxOf(UNION {{x[1], x[2], x[3], x[4]} : x \in L})
Core(L) == LET C == {x \in L : Kind(x) = "core"} IN IF C = {} THEN 0 ELSE (CHOOSE x \in C : TRUE)[5]
Pairs(p, q) == {p, q}
Same2(x, p, q, r, s) == \/ Pairs(x[1], x[2]) = Pairs(p, q) /\ Pairs(x[3], x[4]) = Pairs(r, s)
                        \/ Pairs(x[1], x[2]) = Pairs(r, s) /\ Pairs(x[3], x[4]) = Pairs(p, q)
One(L, p, q, else) == LET C == {x \in L : Kind(x) = "one" /\ Pairs(x[1], x[2]) = Pairs(p, q)} IN IF C = {} THEN else ELSE (CHOOSE x \in C : TRUE)[5]
Two(L, p, q, r, s, else) == LET C == {x \in L : Kind(x) = "two" /\ Same2(x, p, q, r, s)} IN IF C = {} THEN else ELSE (CHOOSE x \in C : TRUE)[5]
\* a table is consistent when every symmetry class has one value
Consistent(L) == /\ \A x, y \in L : Kind(x) = "two" /\ Kind(y) = "two" /\ Same2(x, y[1], y[2], y[3], y[4]) => x[5] = y[5]
                 /\ \A x, y \in L : Kind(x) = "one" /\ Kind(y) = "one" /\ Pairs(x[1], x[2]) = Pairs(y[1], y[2]) => x[5] = y[5]
\* the lines of a table: every entry, the one-body part, the core energy
Ix1(n, p, q) == p + n*(q-1)
Ix2(n, p, q, r, s) == p + n*(q-1 + n*(r-1 + n*(s-1)))
LinesOf(n, T, V, core) ==
   {<<p, q, r, s, V[Ix2(n, p, q, r, s)]>> : p \in 1..n, q \in 1..n, r \in 1..n, s \in 1..n}
   \cup {<<p, q, 0, 0, T[Ix1(n, p, q)]>> : p \in 1..n, q \in 1..n} \cup {<<0, 0, 0, 0, core>>}
\* what a reader returns for the tables; `else` is left where the file is silent
ReadT(L, n, else) == [k \in 1..n*n |-> One(L, ((k-1) % n) + 1, ((k-1) \div n) + 1, else)]
ReadV(L, n, else) == [k \in 1..n*n*n*n |-> Two(L, ((k-1) % n) + 1, (((k-1) \div n) % n) + 1, (((k-1) \div (n*n)) % n) + 1, ((k-1) \div (n*n*n)) + 1, else)]
=============================================================================
