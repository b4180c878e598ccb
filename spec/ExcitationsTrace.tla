------------------------- MODULE ExcitationsTrace -------------------------
EXTENDS Replay, Excitations
\* list L (of lists of occupied positions) holds exactly the sets S, once each
Exactly(L, S) == Len(L) = Cardinality(S) /\ {Rng(L[i]) : i \in 1..Len(L)} = S
Distinct(L) == Cardinality({Rng(L[i]) : i \in 1..Len(L)}) = Len(L)
SortedAs(S, s) == Rng(s) = S /\ Len(s) = Cardinality(S)
Spin(r) == LET s == Rng(r.s) O == 0..r.norb-1 S == SinglesSpin(s, O, r.n) D == DoublesSpin(s, O, r.n) IN
   /\ Exactly(r.S, S) /\ Exactly(r.D, D) /\ Exactly(r.S2, S)
   /\ Exactly(r.Sa, S) /\ Exactly(r.Sb, S) /\ Exactly(r.Db, D)
SpinAs(r) == LET s == Rng(r.s) O == Rng(r.as) S == SinglesSpin(s, O, r.n) D == DoublesSpin(s, O, r.n) IN
   /\ Exactly(r.Sa, S) /\ Exactly(r.Sb, S) /\ Exactly(r.Db, D)
One(r) == LET s == Rng(r.s) O == 0..r.norb-1 A == Rng(r.as) IN
   /\ Exactly(r.S, Singles1(s, O)) /\ Exactly(r.S2, Singles1(s, O))
   /\ Exactly(r.D, Doubles1(s, O)) /\ Exactly(r.D2, Doubles1(s, O))
   /\ SortedAs(s, r.occ) /\ SortedAs(O \ s, r.vir)
   /\ SortedAs(s \cap A, r.occa) /\ SortedAs(A \ s, r.vira)
   /\ Exactly(r.S4, Singles1(s, A)) /\ Exactly(r.S5, Singles1(s, A)) /\ Exactly(r.D5, Doubles1(s, A))
HfEnergies(r) ==      \* lowest nalpha / nbeta orbital energies, ties open
   LET d == Rng(r.d) a == Alpha(d, r.n) b == Beta(d, r.n)
       Lowest(S, k) == /\ Cardinality(S) = k /\ S \subseteq 0..r.norb-1
                       /\ \A p \in S, q \in (0..r.norb-1) \ S : r.e[p+1] <= r.e[q+1]
   IN Lowest(a, r.na) /\ Lowest(b, r.nb)
Accept(r) ==
  CASE r.op = "spin" -> Spin(r)
    [] r.op = "spinas" -> SpinAs(r)
    [] r.op = "one" -> One(r)
    [] r.op = "res" -> Exactly(r.R, Residues(Rng(r.s), r.n))
    [] r.op = "hilbert" -> /\ Exactly(r.H, Space(r.norb, r.na, r.nb, r.n))
                           /\ Len(r.H) = Binom(r.norb, r.na) * Binom(r.norb, r.nb)
    [] r.op = "combs" -> /\ Len(r.H) = Binom(r.norb, IF 2 * r.na > r.norb THEN r.norb - r.na ELSE r.na)
                         /\ Distinct(r.H)
                         /\ \A i \in 1..Len(r.H) : LET s == Rng(r.H[i]) IN s \subseteq 0..r.norb-1 /\ Cardinality(s) = r.na
    [] r.op = "cisd" -> LET s == Rng(r.s) O == 0..r.norb-1 S == {s} \cup SinglesSpin(s, O, r.n) D == S \cup DoublesSpin(s, O, r.n) IN
                        /\ Exactly(r.cis, S) /\ Exactly(r.cis2, S) /\ Exactly(r.cisd, D) /\ Exactly(r.cisd2, D)
                        /\ Rng(r.cisd[1]) = s /\ Rng(r.cis[1]) = s
    [] r.op = "hf" -> Rng(r.d) = Merge(0..r.na-1, 0..r.nb-1, r.n)
    [] r.op = "hfe" -> HfEnergies(r)
    [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
