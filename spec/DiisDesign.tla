----------------------------- MODULE DiisDesign -----------------------------
(* The accelerator as built: slots that are filled, then shifted down by one *)
(* with the newest put last.  Checked: the slots always hold exactly the     *)
(* newest entries, oldest first; and stationary weights are minimal ones.    *)
EXTENDS Diis, TLC, FiniteSets
CONSTANTS Cap, Adds, Grain
VARIABLES max, slots, n, ext
vars == <<max, slots, n, ext>>
Init == max \in 1..Cap /\ slots = << >> /\ n = 0 /\ ext = << >>
Add == /\ n < Adds /\ n' = n + 1
       /\ slots' = IF Len(slots) < max THEN Append(slots, n + 1)
                   ELSE [i \in 1..max |-> IF i < max THEN slots[i + 1] ELSE n + 1]
       /\ ext' = << >> /\ UNCHANGED max
Extrapolate == n > 0 /\ ext' = slots /\ UNCHANGED <<max, slots, n>>
Next == Add \/ Extrapolate
Spec == Init /\ [][Next]_vars
Remembers == slots = Keep(max, n)
UsesAll == ext # << >> => ext = Keep(max, n)
Bounded == Len(slots) <= max
\* exchange argument on a grid of weights with denominator Grain
Vec == (-1..1) \X (-1..1)
W == [1..2 -> -Grain..2*Grain]
Wt(w) == [t \in 1..3 |-> IF t = 3 THEN Grain - w[1] - w[2] ELSE w[t]]
ASSUME \A e \in [1..3 -> Vec] : \A w \in W :
   Stationary(<<1,2,3>>, e, Wt(w)) =>
      \A u \in W : LET a == Mix(<<1,2,3>>, e, Wt(w))  b == Mix(<<1,2,3>>, e, Wt(u))
                   IN DotI(a, a) <= DotI(b, b)
=============================================================================
