-------------------------------- MODULE Grow --------------------------------
(* The growth / refinement protocol.  Growth: from a list of w determinants,  *)
(* ask for  min(max(Min, w*Factor), Max)  of them until there are Max; the     *)
(* search may deliver fewer (a space holds only so many reachable             *)
(* determinants), which is a visible failure, as is a request that is no      *)
(* larger than the list.  Refinement: keep asking for the same size until two *)
(* successive energies agree.                                                 *)
EXTENDS Integers, Sequences
CONSTANTS MaxW, Factors, MaxIt, Energies
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Target(w, f, lo, hi) == Min2(Max2(lo, w * f), hi)
\* the sizes growth goes through, or the prefix up to a failure
RECURSIVE Sizes(_, _, _, _)
Sizes(w, f, lo, hi) == IF w >= hi THEN <<>> ELSE LET t == Target(w, f, lo, hi) IN
                         IF t <= w THEN <<>> ELSE <<t>> \o Sizes(t, f, lo, hi)
Within(d, tol) == (IF d < 0 THEN -d ELSE d) < tol
VARIABLES w, f, lo, hi, cap, st, it, e, hist, tol
vars == <<w, f, lo, hi, cap, st, it, e, hist, tol>>
Init == /\ w \in 1..MaxW /\ f \in Factors /\ lo \in 0..MaxW /\ hi \in 1..MaxW /\ cap \in w..MaxW
        /\ st = "grow" /\ it = 0 /\ e \in Energies /\ hist = <<w>> /\ tol \in 1..2
GrowStep == /\ st = "grow" /\ w < hi
            /\ LET t == Target(w, f, lo, hi) IN
                 IF t <= w \/ t > cap THEN st' = "fail" /\ UNCHANGED <<w, hist, e>>
                 ELSE /\ w' = t /\ hist' = Append(hist, t) /\ st' = "grow" /\ e' \in Energies
            /\ UNCHANGED <<f, lo, hi, cap, it, tol>>
GrowDone == /\ st = "grow" /\ w >= hi /\ st' = "refine" /\ UNCHANGED <<w, f, lo, hi, cap, it, e, hist, tol>>
Refine == /\ st = "refine"
          /\ IF it = MaxIt THEN st' = "fail" /\ UNCHANGED <<it, e>>
             ELSE /\ it' = it + 1 /\ \E x \in Energies : e' = x /\ st' = (IF Within(x - e, tol) THEN "done" ELSE "refine")
          /\ UNCHANGED <<w, f, lo, hi, cap, hist, tol>>
Next == GrowStep \/ GrowDone \/ Refine \/ (st \in {"done", "fail"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(GrowStep \/ GrowDone \/ Refine)
Monotone == \A i \in 1..Len(hist)-1 : hist[i] < hist[i+1] /\ hist[i+1] <= Max2(f * hist[i], lo)
Exact == st \in {"refine", "done"} => w = Max2(hist[1], hi)
Matches == st \in {"refine", "done"} => hist = <<hist[1]>> \o Sizes(hist[1], f, lo, hi)
Ends == <>(st \in {"done", "fail"})
\* enough determinants, a factor that grows: growth cannot fail
NoFalseFailure == (st = "fail" /\ it = 0) => (cap < Max2(hist[1], hi) \/ f < 2)
=============================================================================
