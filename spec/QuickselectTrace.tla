--------------------------- MODULE QuickselectTrace ---------------------------
(* Recorded calls of dist_quickselect and of its partitioning step.           *)
EXTENDS Replay, Util
\* "less" orders ascending, "greater" descending
Lt(r, a, b) == IF r.ord = "lt" THEN a < b ELSE a > b
BetterR(r, s, v) == Cardinality({i \in DOMAIN s : Lt(r, s[i], v)})
IsKthR(r, s, kk, v) == /\ Count(s, v) > 0 /\ BetterR(r, s, v) < kk /\ kk <= BetterR(r, s, v) + Count(s, v)
Concat(r, f(_)) == FlattenSeq([p \in 1..Len(r.ranks) |-> f(r.ranks[p])])
Select(r) ==
  LET before == Concat(r, LAMBDA x : x.before) after == Concat(r, LAMBDA x : x.after) IN
  /\ Len(r.ranks) = r.np
  /\ \A p \in 1..r.np : r.ranks[p].got = r.ranks[1].got
  /\ IsKthR(r, before, r.k, r.ranks[1].got)
  /\ SameBag(before, after)
\* begin <= e <= g <= end : better | equal | worse
Partition(r) ==
  LET n == Len(r.before) IN
  /\ SameBag(r.before, r.after) /\ r.b = 0 /\ r.z = n /\ 0 <= r.e /\ r.e <= r.g /\ r.g <= n
  /\ \A i \in 1..n : (i <= r.e <=> Lt(r, r.after[i], r.piv)) /\ (i > r.e /\ i <= r.g <=> r.after[i] = r.piv)
Scan(r) == \A p \in 1..r.np : LET x == r.ranks[p] IN
  /\ x.total = SumSeq(r.vals) /\ x.gather = r.vals
  /\ Len(x.scan) = r.np /\ \A i \in 1..r.np : x.scan[i] = SumTo(i-1, LAMBDA j : r.vals[j])
Accept(r) == \/ r.op = "qs" /\ Select(r)
             \/ r.op = "leg" /\ Partition(r)
             \/ r.op = "scan" /\ Scan(r)
Judge == Report(Accept(Trace[l]))
===============================================================================
