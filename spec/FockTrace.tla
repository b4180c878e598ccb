------------------------------ MODULE FockTrace ------------------------------
EXTENDS Replay, Fock
Dets(s) == [i \in 1..Len(s) |-> Rng(s[i])]
H2(r, b, k) == HElem(b, k, r.n \div 2, LAMBDA p, q : FT(r.k, p, q), LAMBDA p, q, s, t : FV(r.k, p, q, s, t))
Diag(r, a, b) == DiagE(a, b, LAMBDA p, q : FT(r.k, p, q), LAMBDA p, q, s, t : FV(r.k, p, q, s, t))
RowOk(r) == LET b == Rng(r.bra) IN \A i \in 1..Len(r.kets) :
   LET e == H2(r, b, Rng(r.kets[i])) IN r.h[i] = e /\ r.h2[i] = e /\ r.ht[i] = e
OrbOk(r) == LET s == Rng(r.s) hh == r.n \div 2 a == Al(s, hh) b == Be(s, hh)
               E(o, x, y) == OrbE(o, x, y, LAMBDA p, q : FT(r.k, p, q), LAMBDA p, q, u, t : FV(r.k, p, q, u, t)) IN
   /\ r.h0 = Diag(r, a, b)
   /\ Len(r.ea) = r.norb /\ Len(r.eb) = r.norb
   /\ \A i \in 1..r.norb : /\ r.ea[i] = E(i-1, a, b) /\ r.eb[i] = E(i-1, b, a)
                           /\ r.ea1[i] = r.ea[i] /\ r.eb1[i] = r.eb[i]
Mv(s, o, v) == (s \ {o}) \cup {v}
FastOk(r) == LET s == Rng(r.s) hh == r.n \div 2 a == Al(s, hh) b == Be(s, hh) IN
   /\ \A i \in 1..Len(r.S) : LET x == r.S[i] e == IF x[1] = 0 THEN Diag(r, Mv(a, x[2], x[3]), b) ELSE Diag(r, a, Mv(b, x[2], x[3]))
                             IN x[4] = e /\ x[5] = e
   /\ \A i \in 1..Len(r.D) : LET x == r.D[i] M(z) == (z \ {x[2], x[3]}) \cup {x[4], x[5]}
                                 e == IF x[1] = 0 THEN Diag(r, M(a), b) ELSE Diag(r, a, M(b))
                             IN x[6] = e /\ x[7] = e
   /\ \A i \in 1..Len(r.O) : LET x == r.O[i] e == Diag(r, Mv(a, x[1], x[3]), Mv(b, x[2], x[4]))
                             IN x[5] = e /\ x[6] = e
\* -- sparse blocks: rows of a CSR structure as functions of the column -------
CsrShape(m, n, nnz, ind, rp, ci, nz) ==
   /\ Len(rp) = m + 1 /\ rp[1] = ind /\ rp[m+1] = ind + nnz
   /\ \A i \in 1..m : rp[i] <= rp[i+1]
   /\ Len(ci) = nnz /\ Len(nz) = nnz
   /\ \A i \in 1..nnz : ci[i] \in ind..ind+n-1
RowCells(i, ind, rp, ci, nz) == {<<ci[t] - ind, nz[t]>> : t \in (rp[i]-ind+1)..(rp[i+1]-ind)}
RowSize(i, rp) == rp[i+1] - rp[i]
Significant(v, th2) == 2 * AbsI(v) > th2
CsrIs(m, n, nnz, ind, rp, ci, nz, El(_, _), th2) ==
   IF n = 0 \/ m = 0 THEN nnz = 0 /\ Len(ci) = 0 /\ Len(nz) = 0
   ELSE /\ CsrShape(m, n, nnz, ind, rp, ci, nz)
        /\ \A i \in 1..m : LET want == {c \in {<<j, El(i, j+1)>> : j \in 0..n-1} : Significant(c[2], th2)} IN
              RowCells(i, ind, rp, ci, nz) = want /\ RowSize(i, rp) = Cardinality(want)
BlockOk(r) == LET b == Dets(r.bras) k == Dets(r.kets) El(i, j) == H2(r, b[i], k[j]) IN
   /\ r.am = Len(b) /\ r.an = Len(k) /\ r.bm = Len(b) /\ r.bn = Len(k)
   /\ CsrIs(r.am, r.an, r.annz, r.aind, r.arp, r.aci, r.anz, El, r.th2)
   /\ CsrIs(r.bm, r.bn, r.bnnz, r.bind, r.brp, r.bci, r.bnz, El, r.th2)
\* long lists: the entries listed as near cover every pair of determinants at
\* most two excitations apart; all others are zero by the Slater rules
CellsOk(c, m, n, want) == /\ c.ok /\ c.m = m /\ c.n = n
                          /\ Len(c.cells) = Cardinality(want) /\ Rng(c.cells) = want
LongOk(r) == LET want == {c \in {<<x[1], x[2], H2(r, Rng(x[3]), Rng(x[4]))>> : x \in Rng(r.near)} : Significant(c[3], r.th2)} IN
   /\ CellsOk(r.a, r.m, r.nn, want) /\ CellsOk(r.b, r.m, r.nn, want)
   /\ ("c" \in DOMAIN r => CellsOk(r.c, r.m, r.nn, want))
\* -- density matrices ----------------------------------------------------------
RdmOk(r) == LET d == Dets(r.dets) hh == r.n \div 2 O == 0..r.norb-1 n == r.norb
                nel == IF Len(d) = 0 THEN 0 ELSE Cardinality(d[1])
                occ == UNION {Al(d[i], hh) \cup Be(d[i], hh) : i \in 1..Len(d)} IN
   /\ \A q \in O : \A p \in O : LET g == IF p \in occ /\ q \in occ THEN Gamma1(d, r.c, hh, p, q) ELSE 0 IN
        r.o1[p + q*n + 1] = g /\ r.o1only[p + q*n + 1] = g
   /\ SumOver(O, LAMBDA p : r.o1[p + p*n + 1]) = nel * Norm2(r.c)
   \* 2 Gamma, symmetrised over r <-> s: what contraction with real integrals sees
   /\ IF ~r.sp
      THEN LET At(p, q, s, t) == r.t1x2[p + n*(q + n*(s + n*t)) + 1] IN
           \A s \in O, t \in O, q \in O, p \in O :
             s <= t => At(p, q, s, t) + At(p, q, t, s) = Gamma2x2(d, r.c, hh, p, q, s, t) + Gamma2x2(d, r.c, hh, p, q, t, s)
      ELSE LET got == [x \in {<<y[1], y[2], y[3], y[4]>> : y \in Rng(r.t1nz)} |->
                         (CHOOSE y \in Rng(r.t1nz) : <<y[1], y[2], y[3], y[4]>> = x)[5]]
               At(p, q, s, t) == IF <<p, q, s, t>> \in DOMAIN got THEN got[<<p, q, s, t>>] ELSE 0 IN
           /\ \A s \in occ, t \in occ, q \in occ, p \in occ :
                s <= t => At(p, q, s, t) + At(p, q, t, s) = Gamma2x2(d, r.c, hh, p, q, s, t) + Gamma2x2(d, r.c, hh, p, q, t, s)
           /\ \A x \in DOMAIN got : {x[1], x[2], x[3], x[4]} \subseteq occ
   /\ LET e == QuadForm(d, r.c, hh, LAMBDA p, q : FT(r.k, p, q), LAMBDA p, q, s, t : FV(r.k, p, q, s, t)) IN
        r.energy = e /\ r.quad = e
Accept(r) ==
  CASE r.op = "row" -> RowOk(r)
    [] r.op = "orben" -> OrbOk(r)
    [] r.op = "fast" -> FastOk(r)
    [] r.op = "block" -> BlockOk(r)
    [] r.op = "long" -> LongOk(r)
    [] r.op = "rdm" -> RdmOk(r)
    [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
