--------------------------- MODULE ConstraintsTrace ---------------------------
EXTENDS Replay, Constraints
Exactly(L, S) == Len(L) = Cardinality(S) /\ {Rng(L[i]) : i \in 1..Len(L)} = S
Con(r) ==
  LET s == Rng(r.s) C == Rng(r.c) O == 0..r.norb-1
      S == AlgSingles(s, C, O) D == AlgDoubles(s, C, O) IN
  /\ r.sat = Satisfies(s, C)
  /\ Exactly(r.S, S) /\ Exactly(r.D, D)
  /\ r.ns = Cardinality(S) /\ r.nd = Cardinality(D)
  /\ r.h = Cardinality(S) * (1 + r.nso) + Cardinality(D) + (IF Satisfies(s, C) THEN r.nso + r.ndo + 1 ELSE 0)
Well(c, O) == LET C == Rng(c.c) IN Rng(c.b) = {o \in O : \A x \in C : o < x} /\ (C # {} => c.cmin = MinOf(C))
\* the constraints dealt out: well formed, each to one process; every string
\* reachable from the given ones by up to two moves falls into exactly one;
\* nothing is refined beyond the requested level or below the electron count
Deal(r) ==
  LET np == Len(r.ranks) O == 0..r.norb-1
      K(p) == {Rng(r.ranks[p][i].c) : i \in 1..Len(r.ranks[p])}
      All == UNION {K(p) : p \in 1..np}
      U == {Rng(r.u[i]) : i \in 1..Len(r.u)}
      Reach == U \cup UNION {Singles1(s, O) \cup Doubles1(s, O) : s \in U}
  IN /\ \A p \in 1..np : \A i \in 1..Len(r.ranks[p]) : Well(r.ranks[p][i], O)
     /\ \A p \in 1..np : Cardinality(K(p)) = Len(r.ranks[p])
     /\ \A p, q \in 1..np : p # q => K(p) \cap K(q) = {}
     /\ \A C \in All : C \subseteq O /\ Cardinality(C) <= Max2(3, 3 + r.lev)
     /\ \A s \in Reach : ClassifiedByTops(s, All) = 1
Accept(r) ==
  CASE r.op = "con" -> Con(r)
    [] r.op = "mk" -> LET C == Rng(r.ix) IN Rng(r.c) = C /\ Rng(r.b) = Below(C) /\ r.cmin = MinOf(C)
    [] r.op = "deal" -> Deal(r)
    [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
