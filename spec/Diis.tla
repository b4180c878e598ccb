-------------------------------- MODULE Diis --------------------------------
(* The extrapolation accelerator: what is remembered, and what the weights   *)
(* are.  Remembered is a sequence of identities of additions, oldest first.  *)
EXTENDS Integers, Sequences, Util
Keep(max, n) == IF n <= max THEN [i \in 1..n |-> i] ELSE [i \in 1..max |-> n - max + i]
DotI(x, y) == SumOver(1..Len(x), LAMBDA d : x[d] * y[d])
Diff(x, y) == [d \in 1..Len(x) |-> x[d] - y[d]]
\* weighted error vector; K the remembered identities, e their errors, w weights
Mix(K, e, w) == [d \in 1..Len(e[K[1]]) |-> SumOver(Rng(K), LAMBDA t : w[t] * e[t][d])]
\* first-order condition for the smallest combined error among weights with
\* a fixed sum: no exchange of weight between two remembered entries helps.
Stationary(K, e, w) == LET m == Mix(K, e, w) IN
   \A i, j \in Rng(K) : DotI(Diff(e[i], e[j]), m) = 0
\* the same for weights given with half a unit of rounding each
Slack(K, e, i, j) == SumOver(1..Len(e[i]), LAMBDA d :
      AbsI(e[i][d] - e[j][d]) * (SumOver(Rng(K), LAMBDA t : AbsI(e[t][d])) + 1)) + 1
StationaryUpTo(K, e, w) == LET m == Mix(K, e, w) IN
   \A i, j \in Rng(K) : AbsI(DotI(Diff(e[i], e[j]), m)) <= Slack(K, e, i, j)
\* errors e[t] = 2^k[t] b[t] of very different sizes: weights times 2^(k[t]-k0), k0 the least remembered, combine the b
Sized(b, k, k0) == [t \in 1..Len(b) |-> [d \in 1..Len(b[t]) |-> (IF k[t] > k0 THEN 2 ^ (k[t] - k0) ELSE 1) * b[t][d]]]
SlackS(K, b, E, i, j) == SumOver(1..Len(b[i]), LAMBDA d :
      AbsI(E[i][d] - E[j][d]) * (SumOver(Rng(K), LAMBDA t : AbsI(b[t][d])) + 1)) + 1
StationarySized(K, b, E, u) == LET m == Mix(K, b, u) IN
   \A i, j \in Rng(K) : AbsI(DotI(Diff(E[i], E[j]), m)) <= SlackS(K, b, E, i, j)
=============================================================================
