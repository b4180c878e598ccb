-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by the MACIS specifications.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions, Folds

Rng(s) == {s[i] : i \in DOMAIN s}
IsInjSeq(s) == Cardinality(Rng(s)) = Len(s)
Ascending(s) == \A i \in 1..Len(s)-1 : s[i] < s[i+1]
NonDescending(s) == \A i \in 1..Len(s)-1 : s[i] <= s[i+1]
KSub(k, S) == IF k > Cardinality(S) THEN {} ELSE IF k = 0 THEN {{}} ELSE IF k = 1 THEN {{x} : x \in S}
  ELSE IF k = 2 THEN {{p[1], p[2]} : p \in {q \in S \X S : q[1] < q[2]}} ELSE {x \cup {} : x \in kSubset(k, S)}  \* rebuilt: kSubset yields a set TLC does not sort
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
AbsI(x) == IF x < 0 THEN -x ELSE x
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)
SumTo(n, f(_)) == FoldLeftDomain(LAMBDA a, i : a + f(i), 0, [i \in 1..n |-> 0])
SumSeq(s) == FoldSeq(LAMBDA x, a : a + x, 0, s)
SortedSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 \/ k = n THEN 1 ELSE Binom(n-1, k-1) + Binom(n-1, k)
\* number of occurrences
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Rng(s) \cup Rng(t) : Count(s, x) = Count(t, x)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
