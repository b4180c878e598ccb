----------------------------- MODULE Constraints -----------------------------
(* Sharing out the excitation space by the highest occupied orbitals of one  *)
(* spin string: a constraint is a non-empty set C of orbitals; it holds for  *)
(* the strings whose |C| highest electrons sit exactly on C.                 *)
EXTENDS Excitations
Satisfies(s, C) == C \subseteq s /\ \A e \in s \ C : \A c \in C : e < c
Below(C) == 0 .. MinOf(C) - 1                       \* the B mask of C
ConSingles(s, C, O) == {t \in Singles1(s, O) : Satisfies(t, C)}
ConDoubles(s, C, O) == {t \in Doubles1(s, O) : Satisfies(t, C)}
\* one finer level: fix the next lower electron too
Split(C) == {C \cup {q} : q \in Below(C)}
Triplets(norb) == KSub(3, 0..norb-1)
Classified(s, K) == Cardinality({C \in K : Satisfies(s, C)})
\* the constraints a string satisfies are the sets of its highest electrons
Tops(s) == {{e \in s : e >= x} : x \in s} \cup {{}}
ClassifiedByTops(s, K) == Cardinality(Tops(s) \cap K)
\* number of determinants a constraint yields from the determinants with alpha
\* string s, given the numbers of opposite-spin singles and doubles
Hist(s, C, O, nso, ndo) ==
  Cardinality(ConSingles(s, C, O)) * (1 + nso) + Cardinality(ConDoubles(s, C, O))
  + (IF Satisfies(s, C) THEN nso + ndo + 1 ELSE 0)

(* The mask algorithm: the source and target orbitals of the excitations     *)
(* that lead into C are obtained from det, C and the mask below C only.      *)
AlgSingles(s, C, O) ==
  LET B == Below(C) miss == C \ s
      o == s \ C
      v == IF Cardinality(miss) = 1 THEN miss ELSE (O \ s) \cap B
      hi == o \ B
  IN IF Cardinality(miss) > 1 \/ Cardinality(hi) > 1 THEN {}
     ELSE {(s \ {i}) \cup {a} : i \in (IF Cardinality(hi) = 1 THEN hi ELSE o), a \in v}
AlgDoubles(s, C, O) ==
  LET B == Below(C) miss == C \ s m == Cardinality(miss)
      o == s \ C hi == o \ B h == Cardinality(hi)
      vb == (O \ s) \cap B
      V == IF m = 0 THEN KSub(2, vb) ELSE IF m = 1 THEN {miss \cup {a} : a \in vb} ELSE {miss}
      Oc == IF h = 0 THEN KSub(2, o) ELSE IF h = 1 THEN {hi \cup {i} : i \in o \cap B} ELSE {hi}
  IN IF m > 2 \/ h > 2 THEN {} ELSE {(s \ ij) \cup ab : ij \in Oc, ab \in V}
=============================================================================
