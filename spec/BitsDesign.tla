----------------------------- MODULE BitsDesign -----------------------------
(* Exhaustive check, at a small width, that the set-level definitions of     *)
(* Bits.tla mean what the property says (numeric order = strict total order, *)
(* the halves and the printed string determine the determinant, ...).        *)
EXTENDS Bits
CONSTANT W
VARIABLES x, y
vars == <<x, y>>
Init == x = {} /\ y = {}
\* the register machine: set, clear and shift bits of either string
FlipX(b) == x' = SymDiff(x, {b}) /\ UNCHANGED y
FlipY(b) == y' = SymDiff(y, {b}) /\ UNCHANGED x
ShiftX == x' = {b \in Shl(x, 1) : b < W} /\ UNCHANGED y
Next == ShiftX \/ \E b \in 0..W-1 : FlipX(b) \/ FlipY(b)
Spec == Init /\ [][Next]_vars
LessIsNumeric == Less(x, y) <=> Numeric(x) < Numeric(y)
Trichotomy == Cardinality({p \in {1, 2, 3} : (p = 1 /\ Less(x, y)) \/ (p = 2 /\ Less(y, x)) \/ (p = 3 /\ x = y)}) = 1
HalvesDetermine == Merge(Lo(x, W), Hi(x, W), W) = x
StringDetermines == FromChars([i \in 1..W \div 2 |-> OccChar(x, W, i-1)], W) = x
Words == W <= 16 => Word16(x, 0) = Numeric(x)
=============================================================================
