------------------------------ MODULE AsciDesign ------------------------------
(* The search as P processes run it.  The candidates (positive integer       *)
(* scores, or zero) are spread over the processes by the constraints; every  *)
(* process counts its better-than-cut and equal-to-cut candidates, the       *)
(* better ones are all gathered, and of the equal ones only as many as there *)
(* is room for, in rank order.  The outcome must be Legal for every spread,  *)
(* every score and every requested size - including more room than           *)
(* candidates, no room at all and processes without candidates.              *)
EXTENDS Asci
CONSTANTS NCand, MaxScore, P
VARIABLES score, owner, room, cut, parts, phase, got
vars == <<score, owner, room, cut, parts, phase, got>>
Cands == 1..NCand
Procs == 1..P
Core == <<{100}>>
Init == /\ score \in [Cands -> 0..MaxScore] /\ owner \in [Cands -> Procs] /\ room \in 0..NCand+1
        /\ cut = -1 /\ parts = [p \in Procs |-> [gt |-> {}, eq |-> {}]] /\ phase = "select" /\ got = <<>>
Live == {c \in Cands : score[c] > 0}          \* zero scores are discarded locally
Geq(s) == Cardinality({c \in Live : score[c] >= s})
\* the cut: the room-th best score, or nothing to cut when all fit
Select == /\ phase = "select"
          /\ cut' = IF Cardinality(Live) <= room THEN 0
                    ELSE IF room = 0 THEN MaxScore + 1
                    ELSE CHOOSE s \in 1..MaxScore : Geq(s) >= room /\ Geq(s + 1) < room
          /\ phase' = "part" /\ UNCHANGED <<score, owner, room, parts, got>>
EqBefore(p) == SumOver(1..p-1, LAMBDA q : Cardinality({c \in Live : owner[c] = q /\ score[c] = cut}))
TotalGt == Cardinality({c \in Live : score[c] > cut})
Part == /\ phase = "part"
        /\ \E f \in [Procs -> SUBSET Live] :
             /\ \A p \in Procs :
                  LET eq == {c \in Live : owner[c] = p /\ score[c] = cut}
                      quota == Max2(0, Min2(Cardinality(eq), room - TotalGt - EqBefore(p)))
                  IN f[p] \subseteq eq /\ Cardinality(f[p]) = quota
             /\ parts' = [p \in Procs |-> [gt |-> {c \in Live : owner[c] = p /\ score[c] > cut}, eq |-> f[p]]]
        /\ phase' = "gather" /\ UNCHANGED <<score, owner, room, cut, got>>
Gather == /\ phase = "gather"
          /\ got' = FoldLeftDomain(LAMBDA a, p : a \o SetToSeq(parts[p].gt) \o SetToSeq(parts[p].eq), <<>>, parts)
          /\ phase' = "done" /\ UNCHANGED <<score, owner, room, cut, parts>>
Next == Select \/ Part \/ Gather
Spec == Init /\ [][Next]_vars
Res == [i \in 1..Len(got) |-> {got[i]}] \o Core
Outcome == phase = "done" => Legal(Res, Core, room + 1, [d \in {{c} : c \in Cands} |-> <<score[CHOOSE c \in d : TRUE], 1>>])
=============================================================================
