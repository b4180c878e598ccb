----------------------------- MODULE McscfDesign -----------------------------
(* The driver of the orbital optimisation.  Rotations of one plane, measured *)
(* in whole steps, so that exponentials multiply by adding; the gradient at  *)
(* rotation x is the distance |x - opt|.  The solver is called whenever the  *)
(* orbitals change; acceleration replaces the accumulated rotation by any    *)
(* affine combination (here: one of the kept ones, or a step beyond).        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxIter, Range, Cap, Keep0, Start
VARIABLES opt, supplied, iter, K, Ksav, U, kept, calls, rdm, grad, conv, done, startE
vars == <<opt, supplied, iter, K, Ksav, U, kept, calls, rdm, grad, conv, done, startE>>
Abs(x) == IF x < 0 THEN -x ELSE x
En(x) == Abs(x - opt)                     \* energy grows with the distance
Init == /\ opt \in -Range..Range /\ supplied \in BOOLEAN
        /\ iter = 0 /\ K = 0 /\ Ksav = 0 /\ U = 0 /\ kept = << >>
        /\ calls = (IF supplied THEN 0 ELSE 1)
        /\ rdm = 0                        \* orbitals the density matrices belong to
        /\ grad = Abs(opt) /\ conv = (grad = 0) /\ done = FALSE /\ startE = Abs(opt)
Step == IF Abs(opt - U) > Cap THEN (IF opt > U THEN Cap ELSE -Cap) ELSE opt - U
Push(s, x) == LET t == Append(s, x) IN IF Len(t) > Keep0 THEN Tail(t) ELSE t
Rng(s) == {s[i] : i \in DOMAIN s}
Extrap(s) == Rng(s) \cup {2 * s[Len(s)] - s[1]}
Iterate == /\ ~done /\ ~conv /\ iter < MaxIter
           /\ LET k1 == K + Step
                  s1 == IF iter >= Start THEN Push(kept, k1) ELSE kept
              IN \E k2 \in (IF iter >= Start + 2 THEN Extrap(s1) ELSE {k1}) :
                 /\ kept' = s1 /\ K' = k2 /\ Ksav' = K
                 \* first iteration: the rotation itself; later the change only
                 /\ U' = (IF iter = 0 THEN k2 ELSE U + (k2 - K))
           /\ rdm' = U' /\ calls' = calls + 1 /\ grad' = Abs(opt - U')
           /\ conv' = (grad' = 0) /\ iter' = iter + 1
           /\ UNCHANGED <<opt, supplied, done, startE>>
Finish == ~done /\ (conv \/ iter = MaxIter) /\ done' = TRUE
          /\ UNCHANGED <<opt, supplied, iter, K, Ksav, U, kept, calls, rdm, grad, conv, startE>>
Next == Iterate \/ Finish
Spec == Init /\ [][Next]_vars
Accumulated == U = K                       \* the total rotation is that of the total step
FreshRdm == rdm = U                        \* energy, gradient and density matrices are of the same orbitals
Announce == conv => grad = 0 /\ En(U) = 0
Counted == calls = iter + (IF supplied THEN 0 ELSE 1) /\ iter <= MaxIter
NoWork == conv /\ iter = 0 => U = 0 /\ calls <= 1
NotAbove == done /\ conv => En(U) <= startE
==============================================================================
