-------------------------------- MODULE Bits --------------------------------
(* Bit strings of width N as sets of positions {0..N-1}.                    *)
EXTENDS Util

Mask(i) == 0 .. i-1
Shl(S, k) == {b + k : b \in S}
Lo(S, N) == {b \in S : b < N \div 2}
Hi(S, N) == {b - N \div 2 : b \in {c \in S : c >= N \div 2}}
Merge(a, b, N) == a \cup Shl(b, N \div 2)
\* numeric order of the strings: decided at the highest differing position
Less(x, y) == LET d == SymDiff(x, y) IN d # {} /\ MaxOf(d) \in y
Ffs(S) == MinOf(S) + 1
Fls(S) == MaxOf(S)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k-1)
\* k-th 16-bit word (k = 0..)
Word16(S, k) == SumOver({b \in S : b \div 16 = k}, LAMBDA b : Pow2(b % 16))
OccChar(S, N, i) == LET a == i \in S  b == (i + N \div 2) \in S IN
                    IF a /\ b THEN "2" ELSE IF a THEN "u" ELSE IF b THEN "d" ELSE "0"
FromChars(s, N) == {i \in 0..Len(s)-1 : s[i+1] \in {"2", "u"}}
                   \cup {i + N \div 2 : i \in {j \in 0..Len(s)-1 : s[j+1] \in {"2", "d"}}}
Numeric(S) == SumOver(S, LAMBDA b : Pow2(b))
=============================================================================
