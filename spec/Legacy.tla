------------------------------- MODULE Legacy -------------------------------
(* The legacy solver's determinants (attic/): 2n spin orbitals, alpha p is   *)
(* bit p, beta p is bit p + n.  What its operations must mean, stated on     *)
(* sets and on the second-quantised operators of Fock.                       *)
EXTENDS Fock

\* integral tables with holes (z): dense, diagonal-like, patterned
ZT(z, k, p, q) == IF z = 0 \/ (z = 1 /\ p = q) \/ (z = 2 /\ (p + q) % 2 = 0) THEN FT(k, p, q) ELSE 0
ZV(z, k, p, q, r, s) ==
  IF z = 0 \/ (z = 1 /\ ((p = q /\ r = s) \/ (p = r /\ q = s) \/ (p = s /\ q = r)))
           \/ (z = 2 /\ (PairIx(p, q) + PairIx(r, s)) % 3 = 0)
  THEN FV(k, p, q, r, s) ELSE 0
ZH(z, k, n, bra, ket) == HElem(bra, ket, n, LAMBDA p, q : ZT(z, k, p, q), LAMBDA p, q, r, s : ZV(z, k, p, q, r, s))

\* numeric order of the bit strings
Below(x, y) == LET d == (x \ y) \cup (y \ x) IN d # {} /\ MaxOf(d) \in y
\* single and double excitations that keep each spin's electron count
Mv1(S, o, v) == (S \ {o}) \cup {v}
Spin(n, sg) == IF sg = 0 THEN 0..n-1 ELSE n..2*n-1
Singles(S, n) == UNION {{Mv1(S, o, v) : o \in S \cap Spin(n, sg), v \in Spin(n, sg) \ S} : sg \in {0, 1}}
Doubles(S, n) == UNION {Singles(t, n) : t \in Singles(S, n)} \ (Singles(S, n) \cup {S})
SandD(S, n) == Singles(S, n) \cup Doubles(S, n)
Connected(x, y, n) == x # y /\ Cardinality(x \ y) <= 2 /\ Cardinality(y \ x) = Cardinality(x \ y)
                      /\ Cardinality(Al(x, n)) = Cardinality(Al(y, n))
\* sign of a+_v a_o
OpSign(S, o, v) == Cre(v, Ann(o, <<1, S>>))[1]
Symbol(S, n, p) == IF p \in S THEN (IF p + n \in S THEN "2" ELSE "u") ELSE (IF p + n \in S THEN "d" ELSE "0")
=============================================================================
