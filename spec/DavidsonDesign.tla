---------------------------- MODULE DavidsonDesign ----------------------------
(* The control flow of the distributed Davidson iteration: every rank runs the *)
(* same loop, its only communication being reductions.  A rank leaves the loop *)
(* on the *reduced* residual, so all ranks leave together; the subspace grows   *)
(* by one vector per turn, inside the part of the space coupled to the guess,  *)
(* and the buffers hold MaxM+1 columns.                                        *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, R, MaxMs
Ranks == 1..R
Idx == 1..N
VARIABLES adj, guess, maxm,   \* coupling graph, support of the guess, subspace limit
          dim,                \* columns of V in use on each rank
          supp,               \* support of the subspace
          pc, colls,          \* per rank: where it is, how many collectives it has entered
          part, iter, small   \* reduction in flight; turn counter; set of reduced residuals below tol
vars == <<adj, guess, maxm, dim, supp, pc, colls, part, iter, small>>
Nbr(S) == S \cup {j \in Idx : \E i \in S : {i, j} \in adj}
RECURSIVE Close(_)
Close(S) == IF Nbr(S) = S THEN S ELSE Close(Nbr(S))
Coupled == Close(guess)
Init ==
  /\ adj \in SUBSET {{i, j} : <<i, j>> \in {p \in Idx \X Idx : p[1] < p[2]}}
  /\ guess \in (SUBSET Idx) \ {{}}
  /\ maxm \in MaxMs
  /\ dim = [r \in Ranks |-> 1] /\ supp = guess
  /\ pc = [r \in Ranks |-> "resid"] /\ colls = [r \in Ranks |-> 0]
  /\ part = {} /\ iter = [r \in Ranks |-> 0] /\ small = {}
\* the exact residual vanishes once the subspace is the whole coupled space
MustConverge == \E r \in Ranks : dim[r] >= Cardinality(Coupled)
\* all ranks are in the reduction: it completes and everyone sees one value
Resid ==
  /\ \A r \in Ranks : pc[r] = "resid"
  /\ \E below \in (IF MustConverge THEN {TRUE} ELSE BOOLEAN) :
       /\ small' = IF below THEN small \cup {dim[1]} ELSE small
       /\ pc' = [r \in Ranks |-> IF below THEN "ok"
                                 ELSE IF iter[r] = 0 THEN "orth"
                                 ELSE IF iter[r] + 1 < maxm THEN "orth" ELSE "tail"]
  /\ colls' = [r \in Ranks |-> colls[r] + 1]
  /\ UNCHANGED <<adj, guess, maxm, dim, supp, part, iter>>
\* orthogonalise the new direction (collective), then each rank continues alone.
\* The last turn ("tail") also writes one column, and then gives up.
Orth ==
  /\ \A r \in Ranks : pc[r] \in {"orth", "tail"}
  /\ colls' = [r \in Ranks |-> colls[r] + 1]
  /\ dim' = [r \in Ranks |-> dim[r] + 1]
  /\ supp' = Nbr(supp)
  /\ pc' = [r \in Ranks |-> IF pc[r] = "tail" THEN "fail" ELSE "grow"]
  /\ UNCHANGED <<adj, guess, maxm, part, iter, small>>
\* the loop test and the operator application, at each rank's own pace
Grow(r) ==
  /\ pc[r] = "grow"
  /\ iter' = [iter EXCEPT ![r] = @ + 1]
  /\ pc' = [pc EXCEPT ![r] = IF iter'[r] < maxm THEN "resid" ELSE "fail"]
  /\ UNCHANGED <<adj, guess, maxm, dim, supp, colls, part, small>>
Done == \A r \in Ranks : pc[r] \in {"ok", "fail"}
Next == Resid \/ Orth \/ (\E r \in Ranks : Grow(r)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-------------------------------------------------------------------------------
InBuffers == \A r \in Ranks : dim[r] <= maxm + 1
Agreement == Done => \A p, q \in Ranks : pc[p] = pc[q] /\ colls[p] = colls[q] /\ dim[p] = dim[q]
NoStray == \A p, q \in Ranks : (pc[p] = "ok") => (pc[q] = "ok")      \* nobody leaves alone
InCoupled == supp \subseteq Coupled
Honest == \A r \in Ranks : pc[r] = "ok" => dim[r] \in small          \* only a small residual is success
MustSucceed == (Done /\ maxm >= Cardinality(Coupled)) => \A r \in Ranks : pc[r] = "ok"
Bounded == \A r \in Ranks : iter[r] <= maxm
Ends == <>Done
================================================================================
