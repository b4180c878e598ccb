-------------------------- MODULE TransformDesign --------------------------
(* The staged transformation as a state machine: any untransformed index may *)
(* be contracted next.  Checked for every coefficient matrix with entries in *)
(* -1..1: whatever the order, the final table is the direct sum; the         *)
(* identity changes nothing; transformations compose; a permutation of the   *)
(* eight-fold symmetric indices survives.                                    *)
EXTENDS Transform
CONSTANTS NO, NN
VARIABLES C, X, d, T
vars == <<C, X, d, T>>
Coefs == [1..NO*NN -> {-1, 0, 1}]
Tables == {Tab4(NO, LAMBDA a, b, c, e : fX(k, a, b, c, e)) : k \in {0, 7}}
Init == C \in Coefs /\ X \in Tables /\ T = X /\ d = [j \in 1..4 |-> FALSE]
Dims == [j \in 1..4 |-> IF d[j] THEN NN ELSE NO]
Step(j) == ~d[j] /\ T' = Quarter(Dims, NO, NN, T, C, j) /\ d' = [d EXCEPT ![j] = TRUE] /\ UNCHANGED <<C, X>>
Next == \E j \in 1..4 : Step(j)
Spec == Init /\ [][Next]_vars
Done == \A j \in 1..4 : d[j]
Direct == Done => T = FourIx(NO, NN, X, C)
Staged == Done => T = FourStaged(NO, NN, X, C)
Sym4(Y, n) == \A p, q, r, s \in 0..n-1 : M4(Y, n, p, q, r, s) = M4(Y, n, q, p, r, s) /\ M4(Y, n, p, q, r, s) = M4(Y, n, r, s, p, q)
SymX == LET i(a, b) == ((Max2(a, b) * (Max2(a, b) + 1)) \div 2) + Min2(a, b)
        IN Tab4(NO, LAMBDA a, b, c, e : ((i(a, b) + 1) * (i(c, e) + 1) + 3 * (i(a, b) + i(c, e))) % 7)
SymKept == ~d[1] /\ ~d[2] /\ ~d[3] /\ ~d[4] => Sym4(FourIx(NO, NN, SymX, C), NN)
ASSUME \A Y \in Tables : FourIx(NO, NO, Y, Ident(NO)) = Y
ASSUME \A A \in [1..2*2 -> {-1, 0, 1}] : \A B \in {<<1, 1, -1, 1>>, <<0, 1, 1, 0>>, <<1, 0, -1, -1>>} :
   LET Y == Tab4(2, LAMBDA a, b, c, e : fX(3, a, b, c, e)) Z == Tab2(2, LAMBDA a, b : fX(3, a, b, 0, 0))
   IN /\ FourStaged(2, 2, FourStaged(2, 2, Y, A), B) = FourStaged(2, 2, Y, MatMul(2, 2, 2, A, B))
      /\ TwoIx(2, 2, TwoIx(2, 2, Z, A), B) = TwoIx(2, 2, Z, MatMul(2, 2, 2, A, B))
=============================================================================
