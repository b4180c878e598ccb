---------------------------- MODULE Excitations ----------------------------
(* Determinants as sets of spin orbitals; excitations move electrons from    *)
(* occupied to empty orbitals of the same spin.                              *)
EXTENDS Bits
\* one-spin strings over the orbital set O
Singles1(s, O) == {(s \ {i}) \cup {a} : i \in s \cap O, a \in O \ s}
Doubles1(s, O) ==
  {(s \ ij) \cup ab : ij \in KSub(2, s \cap O), ab \in KSub(2, O \ s)}
Alpha(s, N) == Lo(s, N)
Beta(s, N) == Hi(s, N)
SinglesSpin(s, O, N) ==
  LET a == Alpha(s, N) b == Beta(s, N) IN
  {Merge(x, b, N) : x \in Singles1(a, O)} \cup {Merge(a, x, N) : x \in Singles1(b, O)}
DoublesSpin(s, O, N) ==
  LET a == Alpha(s, N) b == Beta(s, N) IN
  {Merge(x, b, N) : x \in Doubles1(a, O)} \cup {Merge(a, x, N) : x \in Doubles1(b, O)}
  \cup {Merge(x, y, N) : x \in Singles1(a, O), y \in Singles1(b, O)}
Residues(s, N) ==
  LET a == Alpha(s, N) b == Beta(s, N) IN
  {Merge(a \ p, b, N) : p \in KSub(2, a)} \cup {Merge(a, b \ p, N) : p \in KSub(2, b)}
  \cup {Merge(a \ {i}, b \ {j}, N) : i \in a, j \in b}
Space(norb, na, nb, N) ==
  {Merge(a, b, N) : a \in KSub(na, 0..norb-1), b \in KSub(nb, 0..norb-1)}
\* excitation rank between determinants of equal electron counts
Rank(s, t) == Cardinality(s \ t)
SameElectrons(s, t, N) == /\ Cardinality(Alpha(s, N)) = Cardinality(Alpha(t, N))
                          /\ Cardinality(Beta(s, N)) = Cardinality(Beta(t, N))
=============================================================================
