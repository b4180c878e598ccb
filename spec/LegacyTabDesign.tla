--------------------------- MODULE LegacyTabDesign ---------------------------
(* A table object over its life: integrals in use, the copy kept for files,   *)
(* and a file on disk; plus the closed form of the embedding as a theorem.     *)
EXTENDS LegacyTab
CONSTANTS Norb, Vals, MaxOps
N == Norb
Pairs == {<<i, a>> \in Orb(N) \X Orb(N) : i >= a}
VARIABLES t, store, file, last, ops
vars == <<t, store, file, last, ops>>
Tabs == [Pairs -> Vals]
Init == t \in Tabs /\ store = t /\ file = <<>> /\ last = "new" /\ ops = 0
Update == \E x \in Tabs : t' = x /\ last' = "update" /\ UNCHANGED <<store, file>>
Store == store' = t /\ last' = "store" /\ UNCHANGED <<t, file>>
\* lines in any order, either index first
Lines(s, ord) == [k \in 1..Cardinality(Pairs) |-> LET p == ord[k] IN <<p[1] + 1, p[2] + 1, 0, 0, s[p]>>]
Write == /\ \E ord \in {o \in [1..Cardinality(Pairs) -> Pairs] : Rng(o) = Pairs} : file' = Lines(store, ord)
         /\ last' = "write" /\ UNCHANGED <<t, store>>
Read == /\ file # <<>>
        /\ store' = [p \in Pairs |-> FileT(file, N, p[1], p[2])]
        /\ t' = store' /\ last' = "read" /\ UNCHANGED file
Next == ops < MaxOps /\ ops' = ops + 1 /\ (Update \/ Store \/ Write \/ Read)
Spec == Init /\ [][Next]_vars
\* what was written comes back, whatever the line order; reading is faithful
WriteRead == (last = "write") => [p \in Pairs |-> FileT(file, N, p[1], p[2])] = store
ReadIs == (last = "read") => store = t /\ \A p \in Pairs : t[p] = FileT(file, N, p[2], p[1])
NeverBad == file # <<>> => ~Bad(file)
-------------------------------------------------------------------------------
\* the embedding, for every one- and two-determinant state of 2 active orbitals
DetsOf(na, a, b) == {x \cup {p + na : p \in y} : x \in KSub(a, Orb(na)), y \in KSub(b, Orb(na))}
SeqT(n, f(_, _)) == [k \in 1..n*n |-> f((k-1) % n, (k-1) \div n)]
SeqU(n, f(_, _, _, _)) == [k \in 1..n*n*n*n |-> f((k-1) % n, ((k-1) \div n) % n, ((k-1) \div (n*n)) % n, (k-1) \div (n*n*n))]
Embeds(n, ni, na, d, c) ==
  LET g1 == SeqT(na, LAMBDA p, q : Gamma1(d, c, na, p, q))
      g2 == SeqU(na, LAMBDA p, q, r, s : Gamma2x2(d, c, na, p, q, r, s))
      D == [i \in 1..Len(d) |-> Full(d[i], ni, na, n)] w == Norm2(c) IN
  /\ \A p, q \in Orb(n) : Gamma1(D, c, n, p, q) = EmbT(n, ni, na, g1, w, p, q)
  /\ \A p, q, r, s \in Orb(n) : Gamma2x2(D, c, n, p, q, r, s) = EmbU(n, ni, na, g1, g2, w, p, q, r, s)
ASSUME \A ni \in 0..2 : \A a, b \in 0..2 : \A x, y \in DetsOf(2, a, b) :
         Embeds(ni + 3, ni, 2, IF x = y THEN <<x>> ELSE <<x, y>>, IF x = y THEN <<2>> ELSE <<1, -2>>)
\* an identity rotation changes nothing, and rotations compose
RECURSIVE MatMul(_, _)
MatMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> SumTo(Len(A), LAMBDA k : A[i][k] * B[k][j])]]
ASSUME LET A == <<<<1, -2>>, <<3, 1>>>> B == <<<<0, 1>>, <<2, -1>>>> T1 == <<1, 2, -3, 4>> U1 == [k \in 1..16 |-> ((k * k) % 7) - 3]
           RT(M, x) == SeqT(2, LAMBDA i, a : Rot1(2, M, x, i, a)) RU(M, x) == SeqU(2, LAMBDA i, a, j, b : Rot4(2, M, x, i, a, j, b)) IN
  /\ RT(<<<<1, 0>>, <<0, 1>>>>, T1) = T1 /\ RU(<<<<1, 0>>, <<0, 1>>>>, U1) = U1
  /\ RT(B, RT(A, T1)) = RT(MatMul(A, B), T1) /\ RU(B, RU(A, U1)) = RU(MatMul(A, B), U1)
=============================================================================
