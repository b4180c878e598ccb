------------------------------ MODULE Orbital ------------------------------
(* Orbital rotations exp(-K), K antisymmetric.  Non-redundant pairs (a,i):   *)
(* virtual-inactive, virtual-active, active-inactive, packed in that order,  *)
(* a running fastest.  Tables T, V are sequences in column-major order.      *)
EXTENDS ActiveSpace, Transform
\* ------------------------------------------------------------- packing
NPar(ni, na, nv) == nv*ni + nv*na + na*ni
\* position k (from one) as a pair <<a, i>>
Pair(ni, na, nv, k) ==
  IF k <= nv*ni THEN <<ni + na + ((k-1) % nv), (k-1) \div nv>>
  ELSE IF k <= nv*ni + nv*na THEN LET m == k - nv*ni - 1 IN <<ni + na + (m % nv), ni + (m \div nv)>>
  ELSE LET m == k - nv*ni - nv*na - 1 IN <<ni + (m % na), m \div na>>
PairSet(ni, na, nv) == {Pair(ni, na, nv, k) : k \in 1..NPar(ni, na, nv)}
\* the antisymmetric matrix of a parameter vector, by definition and by entry
ToMat(ni, na, nv, x) == LET n == ni + na + nv
   IN Tab2(n, LAMBDA p, q : SumTo(NPar(ni, na, nv), LAMBDA k :
        IF Pair(ni, na, nv, k) = <<p, q>> THEN x[k] ELSE IF Pair(ni, na, nv, k) = <<q, p>> THEN -x[k] ELSE 0))
Pack(ni, na, nv, M) == [k \in 1..NPar(ni, na, nv) |-> LET z == Pair(ni, na, nv, k) IN M2(M, ni + na + nv, z[1], z[2])]
\* -------------------------------------------- derivatives of the energy
\* first-order change of the tables under the rotation K
Rot2(n, T, K) == Tab2(n, LAMBDA p, q : S0(n, LAMBDA o : M2(K, n, p, o) * M2(T, n, o, q) + M2(K, n, q, o) * M2(T, n, p, o)))
Rot4(n, V, K) == Tab4(n, LAMBDA p, q, r, s : S0(n, LAMBDA o :
     M2(K, n, p, o) * M4(V, n, o, q, r, s) + M2(K, n, q, o) * M4(V, n, p, o, r, s)
   + M2(K, n, r, o) * M4(V, n, p, q, o, s) + M2(K, n, s, o) * M4(V, n, p, q, r, o)))
Op2(T, n, p, q) == M2(T, n, p, q)
Energy(n, ni, na, T, V, G1(_, _), G2(_, _, _, _)) ==
   EDens(ni, na, LAMBDA p, q : M2(T, n, p, q), LAMBDA p, q, r, s : M4(V, n, p, q, r, s), G1, G2)
FockTab(n, ni, na, T, V, G1(_, _), G2(_, _, _, _)) ==
   Tab2(n, LAMBDA m, p : FockG(ni, na, LAMBDA a, b : M2(T, n, a, b), LAMBDA a, b, c, d : M4(V, n, a, b, c, d), G1, G2, m, p))
\* gradient for every pair of orbitals: twice the antisymmetric part
GradTab(n, F) == Tab2(n, LAMBDA a, i : 2 * (M2(F, n, a, i) - M2(F, n, i, a)))
GradPack(ni, na, nv, F) == Pack(ni, na, nv, GradTab(ni + na + nv, F))
\* the full gradient matrix keeps the non-redundant pairs only
GradFull(ni, na, nv, F) == ToMat(ni, na, nv, GradPack(ni, na, nv, F))
Comm(n, A, B) == LET AB == MatMul(n, n, n, A, B) BA == MatMul(n, n, n, B, A) IN [q \in 1..n*n |-> AB[q] - BA[q]]
\* twice the Hessian-vector product of a packed vector x, G the gradient matrix
Hess2Vec(ni, na, nv, T, V, G1(_, _), G2(_, _, _, _), G, x) ==
  LET n == ni + na + nv  K == ToMat(ni, na, nv, x)
      Fx == FockTab(n, ni, na, Rot2(n, T, K), Rot4(n, V, K), G1, G2)
      a == GradPack(ni, na, nv, Fx)  b == Pack(ni, na, nv, Comm(n, G, K))
  IN [k \in 1..NPar(ni, na, nv) |-> 2 * a[k] + b[k]]
\* first and (twice the symmetrised) second derivative of the energy
E1(n, ni, na, T, V, G1(_, _), G2(_, _, _, _), K) == Energy(n, ni, na, Rot2(n, T, K), Rot4(n, V, K), G1, G2)
E2x2(n, ni, na, T, V, G1(_, _), G2(_, _, _, _), K, L) ==
  LET TK == Rot2(n, T, K) VK == Rot4(n, V, K) TL == Rot2(n, T, L) VL == Rot4(n, V, L)
  IN Energy(n, ni, na, Rot2(n, TK, L), Rot4(n, VK, L), G1, G2) + Energy(n, ni, na, Rot2(n, TL, K), Rot4(n, VL, K), G1, G2)
\* twice the approximate diagonal Hessian
Diag2(n, ni, na, nv, T, V, G1(_, _), F) ==
  LET Tt(p, q) == M2(T, n, p, q)  Vt(p, q, r, s) == M4(V, n, p, q, r, s)
      Ft2(p) == 2 * FockI(ni, Tt, Vt, p, p) + Fock2A(ni, na, Vt, G1, p, p)
      g(i) == G1(i - ni, i - ni)
  IN [k \in 1..NPar(ni, na, nv) |->
       LET z == Pair(ni, na, nv, k) a == z[1] i == z[2]
       IN IF a >= ni + na /\ i < ni THEN 4 * (Ft2(a) - Ft2(i))
          ELSE IF a >= ni + na THEN 2 * g(i) * Ft2(a) - 4 * M2(F, n, i, i)
          ELSE 2 * g(a) * Ft2(i) + 4 * (Ft2(a) - Ft2(i)) - 4 * M2(F, n, a, a)]
Unit(n, a, i) == Tab2(n, LAMBDA p, q : IF p = a /\ q = i THEN 1 ELSE IF p = i /\ q = a THEN -1 ELSE 0)
TTab(n, k) == Tab2(n, LAMBDA p, q : FT(k, p, q))
VTab(n, k) == Tab4(n, LAMBDA p, q, r, s : FV(k, p, q, r, s))
fM(k, p, q) == ((p*7 + q*4 + p*q*3 + k) % 19) - 9
=============================================================================
