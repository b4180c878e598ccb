----------------------------- MODULE SpmdDesign -----------------------------
(* All tiny programs, all interleavings: running the processes in any order   *)
(* ends in the same state as the greedy run, so one greedy run of a recorded  *)
(* execution decides every schedule; whatever completes without buffering     *)
(* completes with it; and every incomplete run is a deadlock, a mismatch or a *)
(* leftover message.                                                          *)
EXTENDS Spmd, TLC
CONSTANTS NP, MaxLen
P == 1..NP
Kinds == {<<"A", 0>>, <<"B", 0>>, <<"W", 0>>} \cup {<<d, q>> : d \in Messages, q \in P}
\* raw programs over the alphabet, then numbered as the recorder numbers them
Raw(p) == UNION {[1..n -> Kinds \ {<<d, p>> : d \in Messages}] : n \in 0..MaxLen}
Count(f, x, T(_)) == Cardinality({y \in 1..x : T(f[y])})
Entry(p, f, x) ==
  IF f[x][1] \in {"A", "B"} THEN [n |-> f[x][1], g |-> "w", m |-> [y \in P |-> y], i |-> Count(f, x, LAMBDA k : k[1] \in {"A", "B"}), r |-> -1, o |-> 0, k |-> "", b |-> 0, v |-> <<>>]
  ELSE IF f[x][1] = "W" THEN [n |-> "wait", q |-> LET lastw == {y \in 1..x-1 : f[y][1] = "W"}
                                                   from == IF lastw = {} THEN 1 ELSE 1 + CHOOSE y \in lastw : \A z \in lastw : z <= y
                                                   qs == {y \in from..x-1 : f[y][1] \notin {"A", "B", "W"}} IN
                                               [y \in 1..Cardinality(qs) |-> CHOOSE z \in qs : Cardinality({u \in qs : u < z}) = y - 1]]
  ELSE [n |-> f[x][1], g |-> "w", p |-> f[x][2], t |-> 0, i |-> Count(f, x, LAMBDA k : k = f[x]), b |-> 1, q |-> x]
Prog(raw) == [p \in P |-> [x \in 1..Len(raw[p]) |-> Entry(p, raw[p], x)]]
VARIABLES prog, s, eager, want
vars == <<prog, s, eager, want>>
Init == /\ \E raw \in [P -> UNION {Raw(p) : p \in P}] : (\A p \in P : raw[p] \in Raw(p)) /\ prog = Prog(raw)
        /\ eager \in BOOLEAN /\ s = S0(P)
        /\ want = [s |-> Greedy(prog, S0(P), eager), rdv |-> Complete(prog, Greedy(prog, S0(P), FALSE))]
Next == \E p \in P : Enabled(prog, s, p, eager) /\ s' = Step(prog, s, p) /\ UNCHANGED <<prog, eager, want>>
Spec == Init /\ [][Next]_vars
Confluent == Stuck(prog, s, eager) => s = want.s
Buffering == (Stuck(prog, s, eager) /\ want.rdv) => Complete(prog, s)
\* a complete run leaves no message behind
Balanced == Complete(prog, s) => \A x \in s.posts : \E y \in s.posts : y # x /\ SubSeq(y[1], 2, 6) = SubSeq(x[1], 2, 6)
=============================================================================
