---------------------------- MODULE LobpcgDesign ----------------------------
(* Control of the block eigensolver: record, test, stop or iterate; one      *)
(* residual level per vector (0 = under tolerance), which any iteration may  *)
(* change at will.  Wanted vectors only are tested.                          *)
EXTENDS Integers, Sequences
CONSTANTS K, Top
VARIABLES NR, max, track, iter, res, hist, outcome, checks
vars == <<NR, max, track, iter, res, hist, outcome, checks>>
Levels == [1..K -> 0..Top]
Init == /\ NR \in 1..K /\ max \in 0..3 /\ track \in BOOLEAN
        /\ iter = 0 /\ res \in Levels /\ hist = << >> /\ outcome = "run" /\ checks = 0
Met(r) == \A i \in 1..NR : r[i] = 0
Loop == /\ outcome = "run" /\ iter < max
        /\ hist' = (IF track THEN Append(hist, res) ELSE hist) /\ checks' = checks + 1
        /\ IF Met(res) THEN outcome' = "ok" /\ UNCHANGED <<iter, res>>
           ELSE iter' = iter + 1 /\ outcome' = "run" /\ res' \in Levels
        /\ UNCHANGED <<NR, max, track>>
Break == outcome = "run" /\ iter < max /\ ~Met(res) /\ outcome' = "error"   \* orthogonalisation fails
         /\ hist' = (IF track THEN Append(hist, res) ELSE hist) /\ checks' = checks + 1 /\ UNCHANGED <<NR, max, track, iter, res>>
Fail == outcome = "run" /\ iter = max /\ outcome' = "notconv" /\ UNCHANGED <<NR, max, track, iter, res, hist, checks>>
Next == Loop \/ Break \/ Fail
Spec == Init /\ [][Next]_vars
OkMeansMet == outcome = "ok" => Met(res)
OneRecordEach == Len(hist) = (IF track THEN checks ELSE 0)
NoEarlyStop == \A i \in 1..Len(hist) : (i < Len(hist) \/ outcome # "ok") => (Met(hist[i]) => i = Len(hist) /\ outcome = "run")
FailCount == outcome = "notconv" => checks = max
=============================================================================
