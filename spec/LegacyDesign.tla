---------------------------- MODULE LegacyDesign ----------------------------
(* The legacy algorithms as transitions: electrons move one at a time, the   *)
(* sign collected from the bit mask strictly between the two orbitals, and   *)
(* matrix elements are found by moving the lowest differing electron to the  *)
(* lowest differing hole.  Checked in every reachable state: the collected   *)
(* sign is that of the operator product, the pairing rule gives the exact    *)
(* matrix element of the second-quantised Hamiltonian, and the doubly nested *)
(* loops over ascending index pairs produce all the double excitations.      *)
EXTENDS Legacy
CONSTANTS Norb, Steps, K
VARIABLES start, det, sign, op, left
vars == <<start, det, sign, op, left>>
SubAl == SUBSET (0..Norb-1)
SubBe == {{b + Norb : b \in x} : x \in SubAl}
Init == /\ start \in {x \cup y : x \in SubAl, y \in SubBe}
        /\ det = start /\ sign = 1 /\ op = <<1, start>> /\ left = Steps
\* the mask ((1 << omax) - 1) ^ ((1 << omin+1) - 1)
Mask(i, a) == LET hi == Max2(i, a) lo == Min2(i, a) IN ((0..hi-1) \ (0..lo)) \cup ((0..lo) \ (0..hi-1))
Move(sg) == \E o \in det \cap Spin(Norb, sg), v \in Spin(Norb, sg) \ det :
  /\ left > 0 /\ left' = left - 1
  /\ sign' = sign * Parity(Cardinality(det \cap Mask(v, o)))
  /\ det' = Mv1(det, o, v)
  /\ op' = LET r == Cre(v, Ann(o, <<op[1], op[2]>>)) IN r
  /\ UNCHANGED start
Next == Move(0) \/ Move(1)
Spec == Init /\ [][Next]_vars
SignIsOperator == op = <<sign, det>>
\* -- GetHmatel ---------------------------------------------------------------
T(p, q) == FT(K, p, q)
V(p, q, r, s) == FV(K, p, q, r, s)
MSign(S, o, v) == Parity(Cardinality(S \cap Mask(v, o)))
Elem(bra, ket) ==
  LET n == Norb
      ea == Cardinality(Al(bra, n) \ Al(ket, n)) + Cardinality(Al(ket, n) \ Al(bra, n))
      eb == Cardinality(Be(bra, n) \ Be(ket, n)) + Cardinality(Be(ket, n) \ Be(bra, n))
      o1 == MinOf(ket \ bra) v1 == MinOf(bra \ ket)
      k2 == Mv1(ket, o1, v1)
      o2 == MinOf(k2 \ bra) v2 == MinOf(bra \ k2)
      s1 == MSign(ket, o1, v1)
  IN CASE ea = 0 /\ eb = 0 -> DiagE(Al(ket, n), Be(ket, n), T, V)
       [] ea + eb = 2 -> LET a == Al(ket, n) b == Be(ket, n) ss == IF ea = 2 THEN a ELSE b os == IF ea = 2 THEN b ELSE a
                             o == o1 % n v == v1 % n IN
            s1 * (T(v, o) + SumOver(ss, LAMBDA p : V(v, o, p, p) - V(v, p, p, o)) + SumOver(os, LAMBDA p : V(v, o, p, p)))
       [] ea = 2 /\ eb = 2 -> s1 * MSign(k2, o2, v2) * V(v1 % n, o1 % n, v2 % n, o2 % n)
       [] ea + eb = 4 /\ (ea = 0 \/ eb = 0) ->
            s1 * MSign(k2, o2, v2) * (V(v1 % n, o1 % n, v2 % n, o2 % n) - V(v1 % n, o2 % n, v2 % n, o1 % n))
       [] OTHER -> 0
ElementExact == LET e == Elem(det, start) IN
   /\ e = HElem(det, start, Norb, T, V)
   /\ left >= Steps - 1 => 2 * e = Twice2Q(det, start, Norb, Norb, T, V)
\* -- nested loops over ascending occupied and virtual positions ----------------
Loop(sg) == LET o == SortedSeq(start \cap Spin(Norb, sg)) v == SortedSeq(Spin(Norb, sg) \ start) IN
  {Mv1(Mv1(start, o[x[1]], v[x[3]]), o[x[2]], v[x[4]]) :
     x \in {y \in (DOMAIN o) \X (DOMAIN o) \X (DOMAIN v) \X (DOMAIN v) : y[1] < y[2] /\ y[3] < y[4]}}
Mixed == UNION {{Mv1(t, o, v) : o \in start \cap Spin(Norb, 1), v \in Spin(Norb, 1) \ start} :
                  t \in {Mv1(start, o, v) : o \in start \cap Spin(Norb, 0), v \in Spin(Norb, 0) \ start}}
LoopsComplete == left = Steps => Doubles(start, Norb) = Loop(0) \cup Loop(1) \cup Mixed
Reached == /\ (left = Steps - 1 => det \in Singles(start, Norb))
           /\ (left < Steps => Connected(det, start, Norb) \/ det = start \/ Steps - left > 2)
=============================================================================
