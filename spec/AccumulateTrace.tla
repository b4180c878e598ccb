--------------------------- MODULE AccumulateTrace ---------------------------
EXTENDS Replay, Accumulate
P(L) == [i \in 1..Len(L) |-> <<Rng(L[i][1]), L[i][2]>>]
Asc(R) == \A i \in 1..Len(R)-1 : Less(R[i][1], R[i+1][1])
Accept(r) ==
  LET in == P(r.in) off == r.off
      head == SubSeq(in, 1, off) tail == SubSeq(in, off + 1, Len(in))
      a2 == P(r.acc2)
  IN /\ IsSummed(P(r.acc), in) /\ Asc(P(r.acc))
     /\ Len(a2) >= off /\ SubSeq(a2, 1, off) = head /\ IsSummed(SubSeq(a2, off + 1, Len(a2)), tail)
     /\ IsLargest(P(r.keep), in)
     /\ IsReordered(P(r.c1), P(r.c0))
Judge == Report(Accept(Trace[l]))
=============================================================================
