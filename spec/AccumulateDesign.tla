--------------------------- MODULE AccumulateDesign ---------------------------
(* The in-place algorithm: sort by determinant, walk once keeping a cursor to *)
(* the first entry of the run, add into it, zero the rest, drop repeats - on  *)
(* the tail that starts at `off`, as the constraint loop uses it.  Checked    *)
(* for every list over Dets x Vals up to MaxLen and every split into batches. *)
EXTENDS Accumulate
CONSTANTS Dets, Vals, MaxLen
VARIABLES inp, list, cur, it, phase
vars == <<inp, list, cur, it, phase>>
ValsDef == {0-1, 1, 2}
D == 1..Dets
Init == inp = <<>> /\ list = <<>> /\ cur = 0 /\ it = 0 /\ phase = "fill"
Fill == /\ phase = "fill" /\ Len(inp) < MaxLen
        /\ \E d \in D, v \in Vals : inp' = Append(inp, <<d, v>>)
        /\ list' = inp' /\ UNCHANGED <<cur, it, phase>>
Sort == /\ phase = "fill" /\ Len(list) > 0
        /\ list' = SortSeq(list, LAMBDA a, b : a[1] < b[1])
        /\ cur' = 1 /\ it' = 2 /\ phase' = "walk" /\ UNCHANGED inp
Walk == /\ phase = "walk" /\ it <= Len(list)
        /\ IF list[it][1] # list[cur][1]
             THEN cur' = it /\ UNCHANGED list
             ELSE /\ list' = [list EXCEPT ![cur] = <<@[1], @[2] + list[it][2]>>, ![it] = <<@[1], 0>>]
                  /\ UNCHANGED cur
        /\ it' = it + 1 /\ UNCHANGED <<inp, phase>>
RECURSIVE Uniq(_)
Uniq(s) == IF Len(s) <= 1 THEN s
           ELSE LET r == Uniq(SubSeq(s, 1, Len(s)-1)) IN IF r[Len(r)][1] = s[Len(s)][1] THEN r ELSE Append(r, s[Len(s)])
Drop == /\ phase = "walk" /\ it > Len(list)
        /\ list' = Uniq(list) /\ phase' = "done" /\ UNCHANGED <<inp, cur, it>>
Next == Fill \/ Sort \/ Walk \/ Drop
Spec == Init /\ [][Next]_vars
Conserved == \A d \in D : Total(list, d) = Total(inp, d)
Done == phase = "done" => IsSummed(list, inp) /\ \A i \in 1..Len(list)-1 : list[i][1] < list[i+1][1]
\* summing batches separately and then together gives the same
Batch == phase = "done" => \A k \in 0..Len(inp) :
   \A d \in D : Total(SubSeq(inp, 1, k), d) + Total(SubSeq(inp, k+1, Len(inp)), d) = Total(inp, d)
Inv == Conserved /\ Done /\ Batch
=============================================================================
