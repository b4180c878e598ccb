-------------------------- MODULE ConstraintsDesign --------------------------
(* All ways of subdividing constraints and handing them to processes.        *)
EXTENDS Constraints
CONSTANTS Norb, MaxSize, P
VARIABLES nel, K, todo, own, phase
vars == <<nel, K, todo, own, phase>>
O == 0..Norb-1
Strings == KSub(nel, O)
Init == /\ nel \in 1..Norb-1
        /\ K = KSub(IF nel < 3 THEN nel ELSE 3, O)
        /\ phase = "split" /\ todo = {} /\ own = [p \in 1..P |-> {}]
\* a constraint is refined only while it fixes fewer electrons than there are
Refine == /\ phase = "split"
          /\ \E C \in K : /\ Cardinality(C) < nel /\ Cardinality(C) < MaxSize
                          /\ K' = (K \ {C}) \cup Split(C)
          /\ UNCHANGED <<nel, todo, own, phase>>
Start == /\ phase = "split" /\ phase' = "deal" /\ todo' = K /\ UNCHANGED <<nel, K, own>>
Deal == /\ phase = "deal" /\ todo # {}
        /\ LET C == CHOOSE c \in todo : TRUE IN
           /\ todo' = todo \ {C}
           /\ \E p \in 1..P : /\ \A q \in 1..P : Cardinality(own[p]) <= Cardinality(own[q])
                              /\ own' = [own EXCEPT ![p] = @ \cup {C}]
        /\ UNCHANGED <<nel, K, phase>>
Next == Refine \/ Start \/ Deal
Spec == Init /\ [][Next]_vars
View == <<nel, K, todo, IF phase = "deal" THEN own ELSE 0, phase>>
Partition == \A s \in Strings : Classified(s, K) = 1 /\ ClassifiedByTops(s, K) = 1
DealOk == /\ UNION {own[p] : p \in 1..P} = IF phase = "deal" THEN K \ todo ELSE {}
          /\ \A p, q \in 1..P : p # q => own[p] \cap own[q] = {}
\* the mask algorithm agrees with the definition on every string (checked once per initial state)
AlgOk == (phase = "split" /\ \A C \in K : Cardinality(C) <= 3) =>
   \A s \in Strings : \A C \in K \cup UNION {Split(C) : C \in {c \in K : Cardinality(c) < nel}} :
      AlgSingles(s, C, O) = ConSingles(s, C, O) /\ AlgDoubles(s, C, O) = ConDoubles(s, C, O)
Inv == Partition /\ DealOk /\ AlgOk
=============================================================================
