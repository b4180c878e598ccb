------------------------------- MODULE Krylov -------------------------------
(* Krylov methods on symmetric integer matrices, exactly: (band) Lanczos      *)
(* without normalisation, so that every vector is an integer vector.          *)
EXTENDS Util
Dot(a, b) == SumTo(Len(a), LAMBDA i : a[i] * b[i])
MulV(A, x) == [i \in 1..Len(A) |-> Dot(A[i], x)]
Zero(n) == [i \in 1..n |-> 0]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN AbsI(a) ELSE Gcd(b, a % b)
AbsGcd(a, b) == Gcd(AbsI(a), AbsI(b))
Primitive(x) == LET g == FoldSeq(LAMBDA y, a : AbsGcd(y, a), 0, x) IN IF g <= 1 THEN x ELSE [i \in 1..Len(x) |-> IF x[i] < 0 THEN -((-x[i]) \div g) ELSE x[i] \div g]
\* x without its part along q (up to a positive factor)
Without(x, q) == IF Dot(q, q) = 0 THEN x ELSE LET n == Dot(q, q) d == Dot(x, q) IN Primitive([i \in 1..Len(x) |-> n * x[i] - d * q[i]])
RECURSIVE WithoutAll(_, _)
WithoutAll(x, qs) == IF qs = <<>> THEN x ELSE WithoutAll(Without(x, Head(qs)), Tail(qs))
Orthogonal(qs) == \A i \in 1..Len(qs) : \A j \in 1..i-1 : Dot(qs[i], qs[j]) = 0
\* one iteration: apply A to vector `it`, remove the neighbours in the window
Neighbours(qs, it, nb) == [j \in 1..(Min2(it + nb - 1, Len(qs)) - Max2(1, it - nb) + 1) |-> qs[Max2(1, it - nb) + j - 1]]
Step(A, qs, it, nb) == Append(qs, WithoutAll(MulV(A, qs[it]), Neighbours(qs, it, nb)))
=============================================================================
