----------------------------- MODULE KrylovDesign -----------------------------
(* (Band) Lanczos as a transition system over every small symmetric integer   *)
(* matrix and every orthogonal set of starting vectors: removing only the     *)
(* neighbours in a window of twice the band keeps all vectors orthogonal,     *)
(* vanishing vectors included, and the run ends with an invariant space.       *)
EXTENDS Krylov
CONSTANTS N, E, NB, DLow
Ent == -E..E
VARIABLES A, qs, it, nb
vars == <<A, qs, it, nb>>
Vecs == {x \in [1..N -> -1..1] : \E i \in 1..N : x[i] = 1 /\ \A j \in 1..i-1 : x[j] = 0}
Init == /\ A \in {M \in [1..N -> [1..N -> Ent]] : \A i, j \in 1..N : M[i][j] = M[j][i] /\ (i = j /\ DLow = 0 => M[i][i] >= 0)}
        /\ qs = <<>> /\ it = 0 /\ nb = 0
Choose == /\ it = 0 /\ it' = 1 /\ UNCHANGED A
          /\ \E b \in 1..NB : \E s \in [1..b -> Vecs] : Orthogonal(s) /\ qs' = s /\ nb' = b
Iterate == /\ it > 0 /\ it <= N /\ it' = it + 1 /\ qs' = Step(A, qs, it, nb) /\ UNCHANGED <<A, nb>>
Next == Choose \/ Iterate
Spec == Init /\ [][Next]_vars
AllOrthogonal == Orthogonal(qs)
Done == it = N + 1
\* nothing of the space is lost: what A makes of any vector lies in the span
Invariant == Done => /\ Cardinality({k \in 1..Len(qs) : Dot(qs[k], qs[k]) > 0}) <= N
                     /\ \A k \in 1..Len(qs) : WithoutAll(MulV(A, qs[k]), qs) = Zero(N)
\* a single start: the tridiagonal entries give the resolvent as a continued
\* fraction, v^T (w + A)^-1 v = n0 / (w + a0 - b1 / (w + a1 - ...)), by Cramer
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE IF Len(M) = 2 THEN M[1][1] * M[2][2] - M[1][2] * M[2][1]
          ELSE M[1][1] * (M[2][2] * M[3][3] - M[2][3] * M[3][2]) - M[1][2] * (M[2][1] * M[3][3] - M[2][3] * M[3][1]) + M[1][3] * (M[2][1] * M[3][2] - M[2][2] * M[3][1])
Shift(w) == [i \in 1..N |-> [j \in 1..N |-> A[i][j] + (IF i = j THEN w ELSE 0)]]
\* v^T adj(M) v = - det of the bordered matrix
ReplCol(M, c, v) == [i \in 1..N |-> [j \in 1..N |-> IF j = c THEN v[i] ELSE M[i][j]]]
VAdjV(M, v) == SumTo(N, LAMBDA c : v[c] * Det(ReplCol(M, c, v)))
\* fractions <<num, den>>, den > 0
RECURSIVE Frac(_, _)
\* value of the fraction from level k on, with the unnormalised vectors p_k:
\* (p_k,p_k) / (w + a_k - x_{k+1} * s_k), where s_k rescales the next vector
Frac(w, k) ==
  LET p == qs[k] n == Dot(p, p) IN
  IF n = 0 \/ k > N THEN <<0, 1>>
  ELSE LET q == qs[k+1] m == Dot(q, q)
           c == Dot(MulV(A, p), q)             \* <q, A p>; beta^2 = c^2 / (n m)
           f == Frac(w, k + 1)                 \* m * G_{k+1}
           \* n*G_k = n / (w + a/n - c^2/(n m) * f/m) ; over n m m d
           den == IF m = 0 THEN (w * n + Dot(p, MulV(A, p))) ELSE (w * n + Dot(p, MulV(A, p))) * m * m * f[2] - c * c * f[1]
           num == IF m = 0 THEN n * n ELSE n * n * m * m * f[2]
           g == AbsGcd(num, den) IN
       IF g = 0 THEN <<0, 1>> ELSE IF den < 0 THEN <<-(num \div g), (-den) \div g>> ELSE <<num \div g, den \div g>>
Resolvent == (Done /\ nb = 1) => LET w == 7 M == Shift(w) f == Frac(w, 1) IN f[1] * Det(M) = f[2] * VAdjV(M, qs[1])
===============================================================================
