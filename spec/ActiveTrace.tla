----------------------------- MODULE ActiveTrace -----------------------------
(* Recorded active-space quantities.                                         *)
EXTENDS ActiveSpace, Replay
\* the table got (column-major, n x n) holds f
Is2(got, m, n, f(_, _)) == Len(got) = m*n /\ \A q \in 0..n-1 : \A p \in 0..m-1 : got[p + m*q + 1] = f(p, q)
Is4(got, n, f(_, _, _, _)) == Len(got) = n*n*n*n /\ \A s \in 0..n-1, u \in 0..n-1, q \in 0..n-1, p \in 0..n-1 :
                                 got[p + n*(q + n*(u + n*s)) + 1] = f(p, q, u, s)
ActOK(r) ==
  LET T(p, q) == FT(r.k, p, q)  V(p, q, u, s) == FV(r.k, p, q, u, s)
      G1(p, q) == FT(r.k1, p, q)  G2(p, q, u, s) == FV(r.k2, p, q, u, s)
      FG(m, p) == r.f[m + r.no*p + 1]
  IN /\ r.pad
     /\ Is2(r.fi, r.no, r.no, LAMBDA p, q : FockI(r.ni, T, V, p, q)) /\ r.fi2 = r.fi
     /\ Len(r.eps) = r.no /\ \A p \in 0..r.no-1 : r.eps[p+1] = r.fi[p + r.no*p + 1]
     /\ r.ei = EInact(r.ni, T, V)
     /\ Is2(r.ta, r.na, r.na, LAMBDA x, y : TAct(r.ni, T, V, x, y))
     /\ Is2(r.s1, r.na, r.na, LAMBDA x, y : T(x + r.ni, y + r.ni))
     /\ Is4(r.va, r.na, LAMBDA x, y, z, w : VAct(r.ni, V, x, y, z, w)) /\ r.s2 = r.va
     /\ Is2(r.fa2, r.no, r.no, LAMBDA p, q : Fock2A(r.ni, r.na, V, G1, p, q))
     /\ Is2(r.q, r.na, r.no, LAMBDA v, p : QAux(r.ni, r.na, V, G2, v, p))
     /\ Is2(r.f, r.no, r.no, LAMBDA m, p : FockG(r.ni, r.na, T, V, G1, G2, m, p))
     /\ r.f1 = r.f /\ r.f2 = r.f
     /\ r.eg2 = EFock2(r.ni, r.na, T, G1, FG)
     /\ r.eg2 = 2 * EDens(r.ni, r.na, T, V, G1, G2)
Accept(r) == r.op = "act" /\ ActOK(r)
Judge == Report(Accept(Trace[l]))
=============================================================================
