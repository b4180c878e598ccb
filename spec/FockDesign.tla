----------------------------- MODULE FockDesign -----------------------------
(* The Slater-Condon rules used by the trace specifications are the matrix   *)
(* elements of the second-quantised operator: checked for every pair of      *)
(* determinants of a small orbital set, together with the anticommutation    *)
(* rules of the ladder operators the definition rests on.                    *)
EXTENDS Fock
CONSTANTS Norb, K
VARIABLES bra, ket
h == Norb
T(p, q) == FT(K, p, q)
V(p, q, r, s) == FV(K, p, q, r, s)
All == SUBSET (0..2*Norb-1)
Init == /\ ket \in All /\ bra = ket
\* the bra moves by hops of one electron within a spin
Hop(off) == \E i \in bra, a \in (off..off+Norb-1) \ bra : i >= off /\ i < off + Norb /\ bra' = (bra \ {i}) \cup {a}
Next == (Hop(0) \/ Hop(Norb)) /\ UNCHANGED ket
Spec == Init /\ [][Next]_<<bra, ket>>
RulesAreOperator == 2 * HElem(bra, ket, h, T, V) = Twice2Q(bra, ket, Norb, h, T, V)
Hermitian == HElem(bra, ket, h, T, V) = HElem(ket, bra, h, T, V)
RankRule == Cardinality(bra \ ket) > 2 => HElem(bra, ket, h, T, V) = 0
Vac(x) == IF x[1] = 0 THEN <<0, {}>> ELSE x
Anticommute == bra = ket => \A b, d \in 0..2*Norb-1 :
  /\ Vac(Ann(b, Ann(d, <<1, ket>>))) = LET x == Vac(Ann(d, Ann(b, <<1, ket>>))) IN <<-x[1], x[2]>>
  /\ b # d => Vac(Cre(b, Ann(d, <<1, ket>>))) = LET x == Vac(Ann(d, Cre(b, <<1, ket>>))) IN <<-x[1], x[2]>>
  /\ b = d => Vac(Cre(b, Ann(b, <<1, ket>>)))[1] + Vac(Ann(b, Cre(b, <<1, ket>>)))[1] = 1
\* incremental diagonals follow from orbital energies
Increment == bra = ket => \A o \in Al(ket, h), v \in (0..Norb-1) \ Al(ket, h) :
  LET a == Al(ket, h) b == Be(ket, h) IN
  DiagE((a \ {o}) \cup {v}, b, T, V) =
    DiagE(a, b, T, V) + OrbE(v, a, b, T, V) - OrbE(o, a, b, T, V) - (V(v,v,o,o) - V(v,o,o,v))
\* the density matrices of the vector |bra> + 2|ket> reproduce its energy
RdmEnergy == LET d == IF bra = ket THEN <<ket>> ELSE <<bra, ket>> c == IF bra = ket THEN <<1>> ELSE <<1, 2>> O == 0..Norb-1 IN
  /\ 2 * QuadForm(d, c, h, T, V) =
       SumPairs(O, O, LAMBDA p, q : 2 * T(p, q) * Gamma1(d, c, h, p, q))
       + SumPairs(O, O, LAMBDA p, q : SumPairs(O, O, LAMBDA r, s : V(p, q, r, s) * Gamma2x2(d, c, h, p, q, r, s)))
  /\ SumOver(O, LAMBDA p : Gamma1(d, c, h, p, p)) = Cardinality(ket) * Norm2(c)
=============================================================================
