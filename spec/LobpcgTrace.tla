----------------------------- MODULE LobpcgTrace -----------------------------
EXTENDS Lobpcg, Replay
Tight(r) == r.te >= 2 /\ r.how # 5
Good(r) ==
  /\ Len(r.l6) = r.NR /\ NonDescending(r.l6)
  \* orthonormal
  /\ \A i, j \in 1..r.NR : AbsI(Dot(r.x[i], r.x[j]) - (IF i = j THEN 100000000 ELSE 0)) <= 20000 * r.N
  \* each value is that of its vector
  /\ \A i \in 1..r.NR : AbsI(r.rq[i] - r.l6[i]) <= 5 /\ r.l6[i] >= r.ref[i] - 5
  \* the residual reported is the residual
  /\ \A i \in 1..r.NR : r.dr[i] <= 10
History(r) ==
  LET n == Len(r.W) IN
  /\ r.full
  /\ IF r.track /\ r.how # 0 THEN (r.how >= 3 => n = r.checks) ELSE n = 0
  /\ \A i \in 1..n : NonDescending(r.W[i])
  /\ \A i \in 1..n-1 : Falls(r.W[i], r.W[i+1], 5)
  /\ (r.how # 5 => \A i \in 1..n-1 : ~All(r.Wr[i], r.NR, 1000))     \* would have stopped
  /\ (n > 0 /\ r.un # << >> => AbsI(SumSeq(r.W[1]) - 1000000 * Tr(r.A, Rng(r.un))) <= 5 * r.K)
  /\ (n > 0 /\ r.out = "ok" => /\ \A i \in 1..r.NR : r.W[n][i] = r.l6[i]
                               /\ (r.how # 5 => All(r.Wr[n], r.NR, 1001)))
  /\ (n > 0 /\ r.out = "notconv" => n = r.max /\ Falls(SubSeq(r.W[n], 1, r.NR), r.l6, 5))
RunOK(r) ==
  /\ r.pad /\ r.bad = 0 /\ r.args /\ Symmetric(r.A)
  /\ CASE r.out = "ok" -> /\ Good(r) /\ r.max > 0
                          /\ (r.how # 5 => All(r.rr, r.NR, 1010))
                          /\ (Tight(r) => \A i \in 1..r.NR : Eigenpair(r.A, r.x[i], r.l6[i]))
                          /\ (Tight(r) /\ r.un = << >> => \A i \in 1..r.NR : AbsI(r.l6[i] - r.ref[i]) <= 5)
                          /\ (r.how = 5 => r.checks = 1)
       [] r.out = "notconv" -> Good(r) /\ (r.how >= 3 => r.checks = r.max) /\ (r.how = 5 => r.max = 0)
                               /\ (r.max >= 400 => r.odd \/ r.te >= 2 \/ \E i \in 1..r.NR : AbsI(r.ref[i]) <= 5)
       [] OTHER -> r.odd \/ r.N < 3*r.K + 6 \/ r.un # << >>
  /\ (r.out # "error" => History(r))
RefuseOK(r) ==
  /\ r.same /\ ~r.called /\ r.need = Work(r.N, r.K)
  /\ IF r.kind = 0 THEN r.out = "ok" /\ r.lw = r.need
     ELSE r.out = "error" /\ r.lw = r.lwin
Accept(r) == \/ r.op = "run" /\ RunOK(r)
             \/ r.op = "refuse" /\ RefuseOK(r)
Judge == Report(Accept(Trace[l]))
==============================================================================
