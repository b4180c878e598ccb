---------------------------- MODULE LegacyTrace ----------------------------
(* Recorded calls of the legacy solver judged against Legacy.               *)
EXTENDS Replay, Legacy
Dets(s) == [i \in 1..Len(s) |-> Rng(s[i])]
Distinct(s) == Cardinality(Rng(s)) = Len(s)
CombsOk(r) == LET c == Dets(r.c) IN
  /\ Len(c) = Binom(r.n, r.k) /\ Distinct(c)
  /\ \A i \in 1..Len(c) : c[i] \subseteq 0..r.n-1 /\ Cardinality(c[i]) = r.k
SpaceOk(r) == LET d == Dets(r.d) IN
  /\ r.f /\ r.d2 = r.d
  /\ Len(d) = Binom(r.e, r.a) * Binom(r.e, r.b) /\ Distinct(d)
  /\ \A i \in 1..Len(d) : /\ d[i] \subseteq (0..r.e-1) \cup (r.n..r.n+r.e-1)
                          /\ Cardinality(Al(d[i], r.n)) = r.a /\ Cardinality(Be(d[i], r.n)) = r.b
  /\ \A i \in 1..Len(d)-1 : Below(d[i], d[i+1])
DetOk(r) == LET s == Rng(r.s) n == r.n a == Al(s, n) b == Be(s, n) O == 0..n-1
                ordered(q, S) == Rng(q) = S /\ Ascending(q) IN
  /\ ordered(r.up, a) /\ ordered(r.dn, b) /\ ordered(r.ou, a) /\ ordered(r.od, b)
  /\ ordered(r.ou2, a) /\ ordered(r.od2, b) /\ ordered(r.vu, O \ a) /\ ordered(r.vd, O \ b)
  /\ Len(r.str) = n + 2 /\ Len(r.bra) = n + 2
  /\ r.str[1] = "|" /\ r.str[n+2] = ">" /\ r.bra[1] = "<" /\ r.bra[n+2] = "|"
  /\ \A p \in O : r.str[p+2] = Symbol(s, n, p) /\ r.bra[p+2] = r.str[p+2]
  /\ \A i \in 1..Len(r.ex) : LET x == r.ex[i] o == x[2] + x[1] * n v == x[3] + x[1] * n IN
        /\ Rng(r.exs[i]) = Mv1(s, o, v) /\ r.same[i]
        /\ x[4] = OpSign(s, o, v) /\ x[5] = x[4]
  /\ \A i \in 1..Len(r.fi) : LET before == IF i = 1 THEN s ELSE Rng(r.fl[i-1]) b0 == r.fi[i] IN
        Rng(r.fl[i]) = (IF b0 \in before THEN before \ {b0} ELSE before \cup {b0})
CmpOk(r) == LET a == Rng(r.a) b == Rng(r.b) n == r.n
                Diff(x, y) == Cardinality(x \ y) + Cardinality(y \ x)
                first(S) == IF S = {} THEN -1 ELSE MinOf(S) % n IN
  /\ r.cu = Diff(Al(a, n), Al(b, n)) /\ r.cd = Diff(Be(a, n), Be(b, n)) /\ r.c = r.cu + r.cd
  /\ (r.lt <=> Below(a, b)) /\ (r.eq <=> a = b)
  /\ r.f = first(a \ b) /\ r.fu = first(Al(a, n) \ Al(b, n)) /\ r.fd = first(Be(a, n) \ Be(b, n))
SdOk(r) == LET s == Rng(r.s) sd == Dets(r.sd) si == Dets(r.si) all == SandD(s, r.n) IN
  /\ Distinct(sd) /\ Rng(sd) = all
  /\ Distinct(si) /\ Rng(si) \subseteq all
  /\ \A t \in all \ Rng(si) : ZH(r.z, r.k, r.n, t, s) = 0
RowOk(r) == LET b == Rng(r.bra) IN
  /\ r.no = r.n
  /\ \A i \in 1..Len(r.kets) : LET e == ZH(r.z, r.k, r.n, b, Rng(r.kets[i])) IN r.h[i] = e /\ r.ht[i] = e
BlockOk(r) == LET d == Dets(r.d) N == Len(d)
                  H == [i \in 1..N |-> [j \in 1..N |-> ZH(r.z, r.k, r.n, d[i], d[j])]]
                  con == {p \in (0..N-1) \X (0..N-1) : Connected(d[p[1]+1], d[p[2]+1], r.n)}
                  need == {p \in con : H[p[1]+1][p[2]+1] # 0}
                  hm == {<<p[1], p[2], H[p[1]+1][p[2]+1]>> : p \in {q \in (0..N-1) \X (0..N-1) : H[q[1]+1][q[2]+1] # 0}} IN
  /\ Distinct(r.ps) /\ {<<x[1], x[2]>> : x \in Rng(r.ps)} = con
  /\ Distinct(r.p1) /\ Distinct(r.p2)
  /\ LET q == {<<x[1], x[2]>> : x \in Rng(r.p1)} IN need \subseteq q /\ q \subseteq con
  /\ LET q == {<<x[1], x[2]>> : x \in Rng(r.p2)} IN need \subseteq q /\ q \subseteq con
  /\ r.rows = N /\ r.cols = N /\ r.rows1 = N /\ r.cols1 = N
  /\ Distinct(r.m) /\ {<<x[1], x[2], x[3]>> : x \in Rng(r.m)} = hm
  /\ Distinct(r.m1) /\ {<<x[1], x[2], x[3]>> : x \in Rng(r.m1)} = hm
RdmOk(r) == LET d == Dets(r.d) n == r.n O == 0..n-1
                nel == IF Len(d) = 0 THEN 0 ELSE Cardinality(d[1]) IN
  /\ \A p \in O, q \in O : r.o1[p + q*n + 1] = Gamma1(d, r.c, n, p, q)
  /\ \A p \in O, q \in O, s \in O, t \in O : r.o2[p + n*(q + n*(s + n*t)) + 1] = Gamma2x2(d, r.c, n, p, q, s, t)
  /\ SumOver(O, LAMBDA p : r.o1[p + p*n + 1]) = nel * Norm2(r.c)
  /\ r.e = QuadForm(d, r.c, n, LAMBDA p, q : FT(r.k, p, q), LAMBDA p, q, s, t : FV(r.k, p, q, s, t))
Accept(r) ==
  CASE r.op = "combs" -> CombsOk(r)
    [] r.op = "space" -> SpaceOk(r)
    [] r.op = "det" -> DetOk(r)
    [] r.op = "cmp" -> CmpOk(r)
    [] r.op = "sd" -> SdOk(r)
    [] r.op = "row" -> RowOk(r)
    [] r.op = "block" -> BlockOk(r)
    [] r.op = "rdm" -> RdmOk(r)
    [] r.op = "threads" -> r.size > 0 /\ \A i \in 1..Len(r.d) : r.d[i] <= 1
    [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
