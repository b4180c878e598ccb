---------------------------- MODULE LegacyTabTrace ----------------------------
(* Recorded calls of the legacy tables and readers judged against LegacyTab.  *)
EXTENDS Replay, LegacyTab
FciOk(r) ==
  IF r.kind >= 2 THEN r.out = "throw" /\ Bad(r.lines)
  ELSE /\ ~Bad(r.lines) /\ r.out = "ok"
       /\ FileIs(r.lines, r.n, r.real, r.t, r.u)
       /\ r.core = FileCore(r.lines) /\ r.js = FileDiagonal(r.lines)
       /\ FileIs(<<<<1, 1, 0, 0, 10>>, <<1, 1, 1, 1, -3>>>>, r.n, r.real, r.t2, r.u2) /\ r.core2 = 0
RtOk(r) == /\ r.out /\ r.out3 = "ok"
           /\ r.t1 = r.t /\ r.u1 = r.u /\ r.t2 = r.t /\ r.u2 = r.u /\ r.core2 = r.core
           /\ r.t4 = r.t3 /\ r.u4 = r.u3
           /\ r.bad = "throw" /\ r.bad2 = "throw" /\ r.bad3 = "throw"
SameSpin(n, i, a) == (i < n) = (a < n)
AccOk(r) == LET n == r.n IN
  /\ \A k \in 1..Len(r.two) : LET w == r.two[k] ss == SameSpin(n, w[1], w[2])
        v == IF ss THEN r.t[Ix2(n, w[1] % n, w[2] % n)] ELSE 0 IN w[3] = v /\ w[4] = v /\ w[5] = (IF ss THEN 1 ELSE 0) /\ w[6] = w[5]
  /\ \A k \in 1..Len(r.four) : LET w == r.four[k] i == w[1] j == w[2] a == w[3] b == w[4]
        v == IF SameSpin(n, i, a) /\ SameSpin(n, j, b) THEN r.u[Ix4(n, i % n, a % n, j % n, b % n)] ELSE 0 IN
        w[5] = v /\ w[6] = v /\ w[7] = v /\ w[8] = v
UpdOk(r) == LET n == r.n w == r.at
                t == IF Len(w) = 2 /\ SameSpin(n, w[1], w[2]) THEN [r.t EXCEPT ![Ix2(n, w[1] % n, w[2] % n)] = 77] ELSE r.t
                u == IF Len(w) = 4 /\ SameSpin(n, w[1], w[3]) /\ SameSpin(n, w[2], w[4]) THEN [r.u EXCEPT ![Ix4(n, w[1] % n, w[3] % n, w[2] % n, w[4] % n)] = 77] ELSE r.u IN
  r.t1 = t /\ r.t2 = t /\ r.u1 = u /\ r.u2 = u
RotOk(r) == LET n == r.n IN
  /\ \A i, a \in Orb(n) : LET v == Rot1(n, r.V, r.t, i, a) k == Ix2(n, i, a) IN r.t1[k] = v /\ r.t2[k] = v /\ r.t3[k] = v
  /\ \A i, a, j, b \in Orb(n) : LET v == Rot4(n, r.V, r.u, i, a, j, b) k == Ix4(n, i, a, j, b) IN
        r.u2[k] = v /\ r.u3[k] = v /\ (b < r.occ => r.u1[k] = v)
AsOk(r) == LET n == r.n c == r.c IN
  IF c[1] + c[2] + c[3] = n
  THEN r.out = "ok" /\ r.i = [k \in 1..c[1] |-> k - 1] /\ r.a = [k \in 1..c[2] |-> c[1] + k - 1] /\ r.s = [k \in 1..c[3] |-> c[1] + c[2] + k - 1]
  ELSE r.out = "throw"
EmbedOk(r) == LET n == r.n D == [i \in 1..Len(r.d) |-> Full(Rng(r.d[i]), r.ni, r.na, n)] IN
  /\ r.out = "ok" /\ r.bad = "throw" /\ r.nrm = Norm2(r.c)
  /\ \A p, q \in Orb(n) : r.t[Ix2(n, p, q)] = Gamma1(D, r.c, n, p, q)
  /\ \A p, q, s, t \in Orb(n) : r.u[Ix4(n, p, q, s, t)] = Gamma2x2(D, r.c, n, p, q, s, t)
  /\ r.nb = r.na /\ r.tb = r.t0 /\ r.ub = r.u0
RdmfOk(r) == IF r.n = r.m THEN r.out = "ok" /\ r.t1 = r.t /\ r.u1 = r.u ELSE r.out = "throw"
InpOk(r) == /\ r.out = (IF r.kind = 1 THEN "throw" ELSE "ok")
            /\ r.kind # 1 => r.got = r.ent
            \* blank lines mean nothing; a key without a value has an empty one
            /\ r.title = (IF r.titled THEN "[]" ELSE "none")
            /\ r.par = <<"ok", "throw", "throw", "ok", "throw">> /\ r.x = 7
MatOk(r) == LET n == r.n dot(a, b) == SumTo(Len(a), LAMBDA i : a[i] * b[i])
                El == dot(r.l, [i \in 1..n |-> dot(r.A[i], r.r)])
                at(i, j) == SumOver({k \in 1..Len(r.e) : {<<r.e[k][1], r.e[k][2]>>, <<r.e[k][2], r.e[k][1]>>} \cap {<<i-1, j-1>>} # {}}, LAMBDA k : r.e[k][3]) IN
  /\ r.size = n /\ r.ok /\ \A i, j \in 1..n : r.m[i][j] = at(i, j)
  /\ r.okv /\ r.x1 = r.v /\ r.x2 = r.v
  \* conj(l + i k) on the left
  /\ r.el = <<El, El, El, -dot([i \in 1..n |-> i - 1], [i \in 1..n |-> dot(r.A[i], r.r)]), dot(r.l, r.r), dot(r.l, r.r)>>
  /\ r.s1 = [i \in 1..n |-> 2 * r.l[i] - 3 * r.r[i]] /\ r.s2 = r.s1
  /\ LET mm(A, B) == [i \in 1..n |-> [j \in 1..n |-> SumTo(n, LAMBDA k : A[i][k] * B[k][j])]]
         N2 == mm(r.N, r.N) N3 == mm(N2, r.N) IN
     \A i, j \in 1..n : 6 * r.E[i][j] = (IF i = j THEN 6 ELSE 0) + 6 * r.N[i][j] + 3 * N2[i][j] + N3[i][j]
\* inner products: the left factor is conjugated
InnOk(r) == LET dot(a, b) == SumTo(Len(a), LAMBDA i : a[i] * b[i]) IN
  r.z = <<dot(r.a, r.b), dot(r.a, r.b) + dot(r.ai, r.bi), dot(r.a, r.bi) - dot(r.ai, r.b), dot(r.a, r.b), -dot(r.ai, r.b),
          dot(r.a, r.b) + dot(r.ai, r.bi), dot(r.a, r.bi) - dot(r.ai, r.b)>>
Accept(r) ==
  CASE r.op = "fci" -> FciOk(r)
    [] r.op = "rt" -> RtOk(r)
    [] r.op = "acc" -> AccOk(r)
    [] r.op = "upd" -> UpdOk(r)
    [] r.op = "rot" -> RotOk(r)
    [] r.op = "as" -> AsOk(r)
    [] r.op = "embed" -> EmbedOk(r)
    [] r.op = "rdmf" -> RdmfOk(r)
    [] r.op = "inp" -> InpOk(r)
    [] r.op = "inn" -> InnOk(r)
    [] r.op = "threads" -> r.size > 0 /\ \A i \in 1..Len(r.d) : r.d[i] <= 1
    [] r.op = "mat" -> MatOk(r)
    [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
