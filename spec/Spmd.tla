-------------------------------- MODULE Spmd --------------------------------
(* Message-passing semantics of one parallel routine, independent of timing.  *)
(* A program is one sequence of communication calls per process:              *)
(*   collective  [n, g, m, i, r, o, k, b, v]: i-th collective of communicator *)
(*               g with processes m; root r, operation o, element kind k,     *)
(*               b bytes contributed, v byte counts expected                  *)
(*   message     [n: send/recv, g, p, t, i, b, q]: i-th of its channel, peer  *)
(*               p, tag t, b bytes, request q                                 *)
(*   wait        [n: wait, q]: until all the requests q are complete          *)
(* Rendezvous semantics (nothing is buffered): a request completes when the   *)
(* peer has posted the matching one; a collective when all members are in it. *)
(* A routine that completes under these rules completes under every MPI       *)
(* progress rule and under every timing; SpmdDesign shows that the order in   *)
(* which the processes are run does not matter.                               *)
EXTENDS Integers, Sequences, FiniteSets
Messages == {"send", "recv"}
IsColl(e) == e.n \notin Messages \cup {"wait"}
PosIn(m, p) == CHOOSE x \in 1..Len(m) : m[x] = p
Reductions == {"allreduce", "reduce", "scan", "exscan"}
\* a collective call is consistent in itself ...
Self(e, p) ==
  /\ \E x \in 1..Len(e.m) : e.m[x] = p
  /\ e.n \in {"allgather", "alltoall"} => e.v = <<e.b>>
  /\ e.n = "allgatherv" => Len(e.v) = Len(e.m) /\ e.v[PosIn(e.m, p)] = e.b
  /\ e.n \in {"gather", "scatter"} => (p = e.r <=> Len(e.v) = 1) /\ (p = e.r => e.v[1] = e.b)
  /\ e.n \in {"gatherv", "scatterv"} => (p = e.r => e.v[PosIn(e.m, p)] = e.b)
\* ... and with the call of another member
Compat(e, p, f, q) ==
  /\ e.n = f.n /\ e.m = f.m /\ e.r = f.r /\ e.o = f.o
  /\ e.n \in Reductions => e.k = f.k
  /\ e.n \in {"bcast", "allgather", "alltoall", "gather", "scatter"} \cup Reductions => e.b = f.b
  /\ e.n \in {"allgather", "allgatherv", "alltoall"} => e.v = f.v
  /\ e.n \in {"gatherv", "scatterv"} /\ p = e.r => f.b = e.v[PosIn(e.m, q)]
  /\ e.n \in {"gatherv", "scatterv"} /\ q = e.r => e.b = f.v[PosIn(f.m, p)]
-----------------------------------------------------------------------------
\* machine state: position, whether inside a collective, posted messages,
\* collectives entered, requests waited for, first fault found
S0(P) == [pc |-> [p \in P |-> 1], in |-> [p \in P |-> FALSE], posts |-> {}, arr |-> {}, waited |-> {}, bad |-> FALSE]
Key(p, e) == IF e.n = "send" THEN <<"send", p, e.p, e.g, e.t, e.i>> ELSE <<"recv", e.p, p, e.g, e.t, e.i>>
MateKey(p, e) == LET k == Key(p, e) IN <<IF k[1] = "send" THEN "recv" ELSE "send", k[2], k[3], k[4], k[5], k[6]>>
\* the entry that created request q of process p
Req(prog, p, q) == prog[p][CHOOSE x \in 1..Len(prog[p]) : prog[p][x].n \in Messages /\ prog[p][x].q = q]
Posted(s, k) == \E x \in s.posts : x[1] = k
Bytes(s, k) == (CHOOSE x \in s.posts : x[1] = k)[2]
AtEnd(prog, s, p) == s.pc[p] > Len(prog[p])
Cur(prog, s, p) == prog[p][s.pc[p]]
Enabled(prog, s, p, eager) ==
  /\ ~AtEnd(prog, s, p)
  /\ LET e == Cur(prog, s, p) IN
       CASE e.n \in Messages -> TRUE
         [] e.n = "wait" -> \A x \in 1..Len(e.q) : LET r == Req(prog, p, e.q[x]) IN
                              Posted(s, MateKey(p, r)) \/ (eager /\ r.n = "send")
         [] OTHER -> ~s.in[p] \/ \A x \in 1..Len(e.m) : \E y \in s.arr : y[1] = e.g /\ y[2] = e.i /\ y[3] = e.m[x]
Step(prog, s, p) ==
  LET e == Cur(prog, s, p) go == [s.pc EXCEPT ![p] = @ + 1] IN
    CASE e.n \in Messages ->
           LET mk == MateKey(p, e)
               short == Posted(s, mk) /\ (IF e.n = "send" THEN e.b > Bytes(s, mk) ELSE Bytes(s, mk) > e.b) IN
             [s EXCEPT !.pc = go, !.posts = @ \cup {<<Key(p, e), e.b>>}, !.bad = @ \/ short \/ e.p = p]
      [] e.n = "wait" -> [s EXCEPT !.pc = go, !.waited = @ \cup {<<p, e.q[x]>> : x \in 1..Len(e.q)},
                                   !.bad = @ \/ \E x \in 1..Len(e.q) : <<p, e.q[x]>> \in s.waited]
      [] OTHER -> IF s.in[p] THEN [s EXCEPT !.pc = go, !.in = [@ EXCEPT ![p] = FALSE]]
                  ELSE LET others == {y \in s.arr : y[1] = e.g /\ y[2] = e.i}
                           ok == Self(e, p) /\ \A y \in others : Compat(e, p, y[4], y[3]) IN
                         [s EXCEPT !.in = [@ EXCEPT ![p] = TRUE], !.arr = @ \cup {<<e.g, e.i, p, e>>}, !.bad = @ \/ ~ok]
Stuck(prog, s, eager) == \A p \in DOMAIN prog : ~Enabled(prog, s, p, eager)
\* completed: everybody through, nothing left over
Complete(prog, s) ==
  /\ ~s.bad
  /\ \A p \in DOMAIN prog : AtEnd(prog, s, p)
  /\ \A p \in DOMAIN prog : \A x \in 1..Len(prog[p]) : prog[p][x].n \in Messages => <<p, prog[p][x].q>> \in s.waited
  /\ \A x \in s.posts : LET k == x[1] IN Posted(s, <<IF k[1] = "send" THEN "recv" ELSE "send", k[2], k[3], k[4], k[5], k[6]>>)
First(prog, s, eager) == CHOOSE p \in DOMAIN prog : Enabled(prog, s, p, eager) /\ \A q \in DOMAIN prog : q < p => ~Enabled(prog, s, q, eager)
RECURSIVE Greedy(_, _, _)
Greedy(prog, s, eager) == IF Stuck(prog, s, eager) THEN s ELSE Greedy(prog, Step(prog, s, First(prog, s, eager)), eager)
=============================================================================
