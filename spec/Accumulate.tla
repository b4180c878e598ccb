------------------------------ MODULE Accumulate ------------------------------
(* Lists of <<determinant, score>> contributions.                            *)
EXTENDS Bits
Keys(L) == {L[i][1] : i \in DOMAIN L}
Total(L, d) == SumOver({i \in DOMAIN L : L[i][1] = d}, LAMBDA i : L[i][2])
Largest(L, d) == MaxOf({L[i][2] : i \in {j \in DOMAIN L : L[j][1] = d}})
\* one entry per determinant, ascending, with the summed / largest score
IsSummed(R, L) == /\ Keys(R) = Keys(L) /\ Len(R) = Cardinality(Keys(L))
                  /\ \A i \in DOMAIN R : R[i][2] = Total(L, R[i][1])
IsLargest(R, L) == /\ Keys(R) = Keys(L) /\ Len(R) = Cardinality(Keys(L))
                   /\ \A i \in DOMAIN R : R[i][2] = Largest(L, R[i][1])
\* the same entries, heaviest first
IsReordered(R, L) == /\ SameBag(R, L)
                     /\ \A i \in 1..Len(R)-1 : AbsI(R[i][2]) >= AbsI(R[i+1][2])
=============================================================================
