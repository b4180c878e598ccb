----------------------------- MODULE WolfeDesign -----------------------------
(* Bracketing and zooming search for the strong Wolfe conditions on a grid of *)
(* steps, for every function: values and slopes at the steps are chosen       *)
(* freely when first looked at.  Armijo is "below the start" (its constant is *)
(* tiny) and the curvature condition halves the slope.                        *)
EXTENDS Integers, TLC, FiniteSets
CONSTANTS S, V, D          \* largest step, values 0..V around start, slopes -D..D
Steps == 1..S
F0 == V - 1                \* value at step 0
VARIABLES phase, step, lo, hi, seen, best
\* seen[s] = <<value, slope>> or <<>> ; lo/hi are steps
vars == <<phase, step, lo, hi, seen, best>>
Val(s) == IF s = 0 THEN F0 ELSE seen[s][1]
Slo(s) == IF s = 0 THEN -D ELSE seen[s][2]
Init == /\ phase = "bracket" /\ step \in {1, 2, S} /\ lo = 0 /\ hi = 0
        /\ seen = [s \in Steps |-> << >>] /\ best = 0
Look(s, s2) == \E v \in 0..V, d \in -D..D : s2 = [seen EXCEPT ![s] = IF seen[s] = << >> THEN <<v, d>> ELSE seen[s]]
Fell(sn, s) == sn[s][1] < F0
Flat(sn, s) == 2 * (IF sn[s][2] < 0 THEN -sn[s][2] ELSE sn[s][2]) <= D
Bracket ==
  /\ phase = "bracket"
  /\ \E v \in 0..V, d \in -D..D :
     LET sn == [seen EXCEPT ![step] = IF seen[step] = << >> THEN <<v, d>> ELSE seen[step]] IN
     /\ seen' = sn
     /\ IF ~Fell(sn, step) \/ (0 < lo /\ sn[step][1] >= Val(lo)) THEN phase' = "zoom" /\ hi' = step /\ UNCHANGED <<lo, step, best>>
        ELSE IF Flat(sn, step) THEN phase' = "done" /\ best' = step /\ UNCHANGED <<lo, hi, step>>
        ELSE /\ hi' = lo /\ lo' = step /\ UNCHANGED best
             /\ IF sn[step][2] >= 0 THEN phase' = "zoom" /\ UNCHANGED step
                ELSE IF 2 * step > S THEN phase' = "failed" /\ UNCHANGED step ELSE phase' = "bracket" /\ step' = 2 * step
Between == {s \in Steps : (lo < s /\ s < hi) \/ (hi < s /\ s < lo)}
Zoom ==
  /\ phase = "zoom"
  /\ IF Between = {} THEN phase' = "failed" /\ UNCHANGED <<step, lo, hi, seen, best>>
     ELSE \E s \in Between, v \in 0..V, d \in -D..D :
     LET sn == [seen EXCEPT ![s] = IF seen[s] = << >> THEN <<v, d>> ELSE seen[s]] IN
     /\ seen' = sn /\ step' = s
     /\ IF ~Fell(sn, s) \/ sn[s][1] >= Val(lo) THEN hi' = s /\ UNCHANGED <<phase, lo, best>>
        ELSE IF Flat(sn, s) THEN phase' = "done" /\ best' = s /\ UNCHANGED <<lo, hi>>
        ELSE /\ lo' = s /\ UNCHANGED <<phase, best>>
             /\ hi' = IF sn[s][2] * (hi - lo) >= 0 THEN lo ELSE hi
Next == Bracket \/ Zoom
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Met == phase = "done" => Val(best) < F0 /\ Flat(seen, best)
\* the bracket: lower end lies below the start (or is it) and slopes into it
Down == phase = "zoom" => /\ (lo = 0 \/ Val(lo) < F0) /\ Slo(lo) * (hi - lo) < 0
                          /\ (hi # 0 => seen[hi] # << >>)
Ended == phase \in {"done", "failed"}
Terminates == <>Ended
=============================================================================
