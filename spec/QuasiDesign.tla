----------------------------- MODULE QuasiDesign -----------------------------
(* The two-loop recursion is the product with the rank-two-updated matrix,    *)
(* which satisfies the secant condition of the latest step, is symmetric and  *)
(* keeps positive definiteness; backtracking from step one on any convex      *)
(* quadratic ends.                                                            *)
EXTENDS Quasi, TLC
Vec == {<<a, b>> : a, b \in -1..1}
Upd == {u \in [s : Vec, y : Vec] : Dot(u.y, u.s) \in {1, 2}}
VARIABLES ps, h0, phase
vars == <<ps, h0, phase>>
Init == ps = << >> /\ h0 \in {<<1, 1>>, <<2, 1>>} /\ phase = "update"
Update == Len(ps) < 2 /\ \E u \in Upd : ps' = Append(ps, u) /\ UNCHANGED <<h0, phase>>
Next == Update
Spec == Init /\ [][Next]_vars
Same == \A x \in Vec : TwoLoop(ps, h0, x) = Dense(ps, h0, x)
Secant == ps # << >> => LET u == ps[Len(ps)] IN Dense(ps, h0, u.y) = [i \in 1..2 |-> Den(ps) * u.s[i]]
Symm == \A x, z \in Vec : Dot(z, Dense(ps, h0, x)) = Dot(x, Dense(ps, h0, z))
Positive == \A x \in Vec : x # <<0, 0>> => Dot(x, Dense(ps, h0, x)) > 0
\* backtracking always finds a step on a convex quadratic and the value falls
ASSUME \A dg \in -6..-1, q \in 0..60 : \E k \in 0..6 : Enough(dg, q, k)
\* and every step beyond it is acceptable too, with a smaller value than the start
ASSUME \A dg \in -6..-1, q \in 0..60, k \in 0..6 : Enough(dg, q, k) => /\ Enough(dg, q, k + 1)
                                                                      /\ 2 * Pow2(k) * dg + q < 0
=============================================================================
