------------------------------- MODULE CiGuess -------------------------------
(* How the distributed CI solver starts: each process owns a block of rows of *)
(* the guess, all must take the same branch (use it / build the default one), *)
(* because the default branch communicates.  RULE = "global" decides on the   *)
(* largest entry over all processes, "local" on each process's own rows: the  *)
(* latter is kept to show that the model tells the two apart.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, P, RULE
VARIABLES cut, big, pc, br, arrived
vars == <<cut, big, pc, br, arrived>>
Procs == 1..P
Rows(p) == {i \in 1..N : (p = 1 \/ i > cut[p-1]) /\ (p = P \/ i <= cut[p])}
\* big: the rows whose entry exceeds the threshold
Cuts == {c \in [1..P-1 -> 0..N] : \A i \in 1..P-2 : c[i] <= c[i+1]}
Init == /\ cut \in Cuts /\ big \in SUBSET (1..N)
        /\ pc = [p \in Procs |-> "reduce"] /\ br = [p \in Procs |-> "none"] /\ arrived = {}
Decide(p) == IF RULE = "global" THEN big # {} ELSE Rows(p) \cap big # {}
\* the reduction completes when every process has entered it
Enter(p) == /\ pc[p] = "reduce" /\ p \notin arrived /\ arrived' = arrived \cup {p} /\ UNCHANGED <<cut, big, pc, br>>
Leave(p) == /\ pc[p] = "reduce" /\ (RULE = "local" \/ arrived = Procs)
            /\ br' = [br EXCEPT ![p] = IF Decide(p) THEN "given" ELSE "unit"]
            /\ pc' = [pc EXCEPT ![p] = IF Decide(p) THEN "solve" ELSE "gather"] /\ UNCHANGED <<cut, big, arrived>>
\* the default guess gathers the diagonal from everybody: all must be there
Gather == /\ \A p \in Procs : pc[p] = "gather"
          /\ pc' = [p \in Procs |-> "solve"] /\ UNCHANGED <<cut, big, br, arrived>>
Done == \A p \in Procs : pc[p] = "solve"
Next == \/ \E p \in Procs : Enter(p) \/ Leave(p)
        \/ Gather
        \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Agree == \A p, q \in Procs : br[p] # "none" /\ br[q] # "none" => br[p] = br[q]
Faithful == \A p \in Procs : br[p] # "none" => (br[p] = "given" <=> big # {})
Terminates == <>Done
==============================================================================
