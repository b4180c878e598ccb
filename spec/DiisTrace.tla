------------------------------ MODULE DiisTrace ------------------------------
(* Recorded histories: every extrapolation only uses the remembered entries, *)
(* its weights (in thousandths) sum to one and leave no better exchange.     *)
EXTENDS Diis, Replay
RECURSIVE Walk(_, _, _, _, _)
Walk(r, q, e, k, ok) ==
  IF q > Len(r.ev) \/ ~ok THEN ok
  ELSE LET s == r.ev[q] IN
       IF s.a = 1 THEN Walk(r, q + 1, Append(e, s.e), Append(k, s.k), Len(s.e) = r.dim)
       ELSE LET K == Keep(r.max, Len(e)) IN
            Walk(r, q + 1, e, k,
              /\ Len(s.x) = r.adds
              /\ \A t \in 1..r.adds : AbsI(s.x[t]) < 1000000
              /\ \A t \in (1..r.adds) \ Rng(K) : s.x[t] = 0
              /\ AbsI(SumOver(Rng(K), LAMBDA t : s.x[t]) - 1000) <= Len(K)
              /\ \A t \in 1..r.adds : AbsI(s.u[t]) < 1000000
              /\ StationarySized(K, e, Sized(e, k, CHOOSE m \in {k[t] : t \in Rng(K)} : \A t \in Rng(K) : k[t] >= m), s.u))
Judge == Report(Walk(Trace[l], 1, << >>, << >>, TRUE))
=============================================================================
