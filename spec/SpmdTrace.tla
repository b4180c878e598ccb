------------------------------ MODULE SpmdTrace ------------------------------
(* Recorded parallel calls: each record holds every process's communication   *)
(* log.  The machine of Spmd is run over it (one step per TLC state); the     *)
(* record is accepted when it completes.  Records of the communication        *)
(* helpers are judged by value.                                               *)
EXTENDS Spmd, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
NRec == Len(Trace)
VARIABLES l, s
vars == <<l, s>>
ProcSet(r) == {r.procs[x] : x \in 1..Len(r.procs)}
ProgOf(r) == [p \in ProcSet(r) |-> r.logs[PosIn(r.procs, p)]]
RECURSIVE SumSeqV(_), MaxSeqV(_), MinSeqV(_)
SumSeqV(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeqV(Tail(q))
MaxSeqV(q) == IF Len(q) = 1 THEN q[1] ELSE LET m == MaxSeqV(Tail(q)) IN IF q[1] > m THEN q[1] ELSE m
MinSeqV(q) == IF Len(q) = 1 THEN q[1] ELSE LET m == MinSeqV(Tail(q)) IN IF q[1] < m THEN q[1] ELSE m
Fold(op, q) == CASE op = "sum" -> SumSeqV(q) [] op = "max" -> MaxSeqV(q) [] OTHER -> MinSeqV(q)
HelperOk(r) ==
  LET n == Len(r.in) IN
  CASE r.what = "allreduce" -> \A p \in 1..n : Len(r.out[p]) = Len(r.in[p]) /\ \A x \in 1..Len(r.in[p]) :
                                  r.out[p][x] = Fold(r.f, [q \in 1..n |-> r.in[q][x]])
    [] r.what = "bcast" -> \A p \in 1..n : r.out[p] = r.in[r.root+1]
    [] r.what = "allgather" -> LET w == Len(r.in[1]) IN \A p \in 1..n : Len(r.out[p]) = n * w /\
                                  \A x \in 1..n*w : r.out[p][x] = r.in[((x-1) \div w) + 1][((x-1) % w) + 1]
    [] r.what = "shift" -> \A p \in 1..n : r.out[p] = r.in[IF p = 1 THEN n ELSE p-1]
    [] r.what = "rank" -> \A p \in 1..n : r.out[p] = <<p-1, n, p-1, n>>
    [] OTHER -> FALSE
Fresh(i) == IF i <= NRec /\ Trace[i].op = "calls" THEN S0(ProcSet(Trace[i])) ELSE S0({})
Init == l = 1 /\ s = Fresh(1)
Ok(i, q) == IF Trace[i].op = "calls"
            THEN Complete(ProgOf(Trace[i]), q) /\ \A x \in 1..Len(Trace[i].out) : Trace[i].out[x] = Trace[i].out[1]
            ELSE HelperOk(Trace[i])
Moving == l <= NRec /\ Trace[l].op = "calls" /\ ~s.bad /\ ~Stuck(ProgOf(Trace[l]), s, FALSE)
Move == Moving /\ l' = l /\ s' = LET g == ProgOf(Trace[l]) IN Step(g, s, First(g, s, FALSE))
Close == l <= NRec /\ ~Moving /\ l' = l + 1 /\ s' = Fresh(l + 1)
Next == Move \/ Close
Spec == Init /\ [][Next]_vars
Judge == /\ (l <= NRec /\ ~Moving) => (Ok(l, s) \/ PrintT(<<"REJECT", l>>))
         /\ l = NRec + 1 => PrintT(<<"ACCEPTED", NRec>>)
==============================================================================
