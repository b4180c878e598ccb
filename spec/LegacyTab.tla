------------------------------ MODULE LegacyTab ------------------------------
(* Integral and density-matrix tables of the legacy solver: what a text file  *)
(* of integrals means, how tables turn under an orbital rotation, and how the  *)
(* density matrices of an active space sit inside those of the whole system.  *)
(* Tables are sequences: t[i,a] at i + n a, u<ij|ab> at i + n(a + n(j + n b)). *)
EXTENDS Fock
Ix2(n, i, a) == i + n * a + 1
Ix4(n, i, a, j, b) == i + n * (a + n * (j + n * b)) + 1
Orb(n) == 0..n-1

\* ---- a file: lines <<i, a, j, b, value>>, indices from one -----------------
Same2(i, a, x, y) == {<<i, a>>, <<a, i>>} \cap {<<x, y>>} # {}
Bad(L) == \E k \in DOMAIN L : LET w == L[k] IN w[5] # 0 /\
            ((w[1] = 0 /\ (w[2] # 0 \/ w[3] # 0 \/ w[4] # 0)) \/ (w[1] # 0 /\ w[2] = 0 /\ (w[3] # 0 \/ w[4] # 0)) \/ ((w[3] = 0) # (w[4] = 0)))
FirstOf(L, P(_)) == IF \E k \in DOMAIN L : L[k][5] # 0 /\ P(L[k]) THEN L[CHOOSE k \in DOMAIN L : L[k][5] # 0 /\ P(L[k]) /\ \A m \in 1..k-1 : ~(L[m][5] # 0 /\ P(L[m]))][5] ELSE 0
FileT(L, n, i, a) == FirstOf(L, LAMBDA w : w[2] > 0 /\ w[3] = 0 /\ w[4] = 0 /\ Same2(i + 1, a + 1, w[1], w[2]))
FileU(L, real, i, a, j, b) == FirstOf(L, LAMBDA w : w[3] > 0 /\ w[4] > 0 /\
   IF real THEN Same2(i + 1, a + 1, w[1], w[2]) /\ Same2(j + 1, b + 1, w[3], w[4])
   ELSE <<w[1], w[2], w[3], w[4]>> = <<i + 1, a + 1, j + 1, b + 1>>)
FileCore(L) == FirstOf(L, LAMBDA w : w[1] = 0)
FileDiagonal(L) == \A k \in DOMAIN L : LET w == L[k] IN w[5] # 0 /\ w[3] > 0 => w[1] = w[2] \/ w[3] = w[4]
FileIs(L, n, real, t, u) ==
  /\ \A i, a \in Orb(n) : t[Ix2(n, i, a)] = FileT(L, n, i, a)
  /\ \A i, a, j, b \in Orb(n) : u[Ix4(n, i, a, j, b)] = FileU(L, real, i, a, j, b)

\* ---- rotations ---------------------------------------------------------------
V(M, i, j) == M[i + 1][j + 1]
Rot1(n, M, t, i, a) == SumOver(Orb(n), LAMBDA x : SumOver(Orb(n), LAMBDA y : V(M, x, i) * t[Ix2(n, x, y)] * V(M, y, a)))
Rot4(n, M, u, i, a, j, b) ==
  SumOver(Orb(n), LAMBDA x : V(M, x, i) * SumOver(Orb(n), LAMBDA y : V(M, y, a) *
  SumOver(Orb(n), LAMBDA z : V(M, z, j) * SumOver(Orb(n), LAMBDA w : V(M, w, b) * u[Ix4(n, x, y, z, w)]))))

\* ---- an active space inside the whole ----------------------------------------
\* inactive orbitals 0..ni-1 doubly occupied, active ni..ni+na-1
Full(d, ni, na, n) == UNION {{i, i + n} : i \in 0..ni-1} \cup {p + ni : p \in {x \in d : x < na}} \cup {p - na + ni + n : p \in {x \in d : x >= na}}
Kron(x, y) == IF x = y THEN 1 ELSE 0
\* closed form, for a normalised state scaled by w: g1, g2 are the active tables
EmbT(n, ni, na, g1, w, p, q) ==
  LET act(x) == x >= ni /\ x < ni + na IN
  IF p < ni THEN 2 * w * Kron(p, q) ELSE IF act(p) /\ act(q) THEN g1[Ix2(na, p - ni, q - ni)] ELSE 0
EmbU(n, ni, na, g1, g2, w, p, q, r, s) ==
  LET in(x) == x < ni act(x) == x >= ni /\ x < ni + na
      G(x, y) == IF act(x) /\ act(y) THEN g1[Ix2(na, x - ni, y - ni)] ELSE 0 IN
  IF in(p) /\ in(q) /\ in(r) /\ in(s) THEN 4 * w * Kron(p, q) * Kron(r, s) - 2 * w * Kron(p, s) * Kron(r, q)
  ELSE IF in(p) /\ in(q) THEN 2 * Kron(p, q) * G(r, s)
  ELSE IF in(r) /\ in(s) THEN 2 * Kron(r, s) * G(p, q)
  ELSE IF in(p) /\ in(s) THEN -1 * Kron(p, s) * G(r, q)
  ELSE IF in(r) /\ in(q) THEN -1 * Kron(r, q) * G(p, s)
  ELSE IF act(p) /\ act(q) /\ act(r) /\ act(s) THEN g2[Ix4(na, p - ni, q - ni, r - ni, s - ni)] ELSE 0
=============================================================================
