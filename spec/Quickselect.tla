----------------------------- MODULE Quickselect -----------------------------
(* Distributed selection: processes hold bags of values; rounds of            *)
(*   pick a pivot among the remaining values -> partition everywhere ->       *)
(*   continue left / stop / continue right,                                   *)
(* until the pivot is the answer or few values remain, which are gathered.    *)
(* The pivot is chosen freely, so the design holds for every generator.       *)
EXTENDS Util
CONSTANTS NP, NMAX, VMAX
VARIABLES held,   \* process -> sequence of remaining values
          init,   \* process -> the values it started with
          k, k0, phase, ans
vars == <<held, init, k, k0, phase, ans>>
P == 1..NP
All(h) == FlattenSeq([p \in P |-> h[p]])
Total(h) == SumTo(NP, LAMBDA p : Len(h[p]))
\* v is the k-th of the sequence s counted from the front of the order
Better(s, v) == Cardinality({i \in DOMAIN s : s[i] < v})
IsKth(s, kk, v) == /\ Count(s, v) > 0 /\ Better(s, v) < kk /\ kk <= Better(s, v) + Count(s, v)
Seqs(n) == UNION {[1..i -> 0..VMAX] : i \in 0..n}
Init == /\ init \in [P -> {s \in Seqs(NMAX) : NonDescending(s)}]
        /\ Total(init) \in 1..NMAX
        /\ held = init /\ k0 \in 1..Total(init) /\ k = k0
        /\ phase = "count" /\ ans = -1
Round == /\ phase = "count" /\ Total(held) >= NP
         /\ \E piv \in Rng(All(held)) :
              LET L == [p \in P |-> SelectSeq(held[p], LAMBDA x : x < piv)]
                  G == [p \in P |-> SelectSeq(held[p], LAMBDA x : x > piv)]
                  e == Count(All(held), piv) IN
              IF k <= Total(L) THEN held' = L /\ UNCHANGED <<k, phase, ans>>
              ELSE IF k <= Total(L) + e THEN phase' = "done" /\ ans' = piv /\ UNCHANGED <<k, held>>
              ELSE held' = G /\ k' = k - Total(L) - e /\ UNCHANGED <<phase, ans>>
         /\ UNCHANGED <<init, k0>>
Gather == /\ phase = "count" /\ Total(held) < NP
          /\ ans' = SortSeq(All(held), LAMBDA a, b : a < b)[k]
          /\ phase' = "done" /\ UNCHANGED <<held, init, k, k0>>
Next == Round \/ Gather \/ (phase = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the remaining window always contains the answer at position k
Window == phase = "count" => k \in 1..Total(held) /\ \E v \in Rng(All(held)) : IsKth(All(held), k, v) /\ IsKth(All(init), k0, v)
Right == phase = "done" => IsKth(All(init), k0, ans)
Shrinks == [][phase = "count" /\ phase' = "count" => Total(held') < Total(held)]_vars
Ends == <>(phase = "done")
==============================================================================
