------------------------------- MODULE AsciTrace -------------------------------
EXTENDS Replay, Asci
Search(r) ==
  LET np == Len(r.ranks)
      core == [i \in 1..Len(r.core) |-> Rng(r.core[i])]
      sc == Scores(r.n, r.norb, r.k, r.e2, core, r.c, r.th2, r.js)
      res(p) == [i \in 1..Len(r.ranks[p]) |-> Rng(r.ranks[p][i])]
  IN /\ \A p \in 1..np : r.ranks[p] = r.ranks[1]          \* identical lists
     /\ \A d \in Rng(res(1)) : Cardinality(Alpha(d, r.n)) = r.na /\ Cardinality(Beta(d, r.n)) = r.nb
     /\ IF r.pr8 = 0 THEN Legal(res(1), core, r.nmax, sc) ELSE LegalPruned(res(1), core, r.nmax, sc, Len(core) * r.pr8)
Accept(r) == r.op = "search" /\ Search(r)
Judge == Report(Accept(Trace[l]))
=============================================================================
