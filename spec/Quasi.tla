-------------------------------- MODULE Quasi --------------------------------
(* Line searches and the limited-memory quasi-Newton inverse Hessian.         *)
(* Quadratics f(x) = x'Ax/2 - b'x with integer data are treated exactly:      *)
(* a step is m/2^k, f is kept as 2 f 4^k and gradients as g 2^k.              *)
EXTENDS Eigen
Pow2(k) == 2 ^ k
Mat(A, x) == Mul(A, x)
At(x0, p, k) == [i \in 1..Len(x0) |-> Pow2(k) * x0[i] + p[i]]      \* (x0 + p/2^k) 2^k
Grad(A, b, X, k) == [i \in 1..Len(X) |-> Dot(A[i], X) - Pow2(k) * b[i]]
Twice(A, b, X, k) == Dot(X, Mul(A, X)) - 2 * Pow2(k) * Dot(b, X)
Slope(A, b, x0, p) == Dot(p, Grad(A, b, x0, 0))
Curve(A, p) == Dot(p, Mul(A, p))
\* sufficient decrease along p at step 2^-k: half of the predicted slope
Enough(dg, q, k) == Pow2(k) * dg + q <= 0
\* strong Wolfe conditions on fixed-point values of one line (scale 10^4)
Wolfe(f, f0, dg, dg0) == /\ f <= f0 + 1 /\ 10 * AbsI(dg) <= 9 * AbsI(dg0) + 20
-------------------------------------------------------------------------------
\* The inverse Hessian as a sequence of rank-two updates of H0, exactly, when
\* y.s is a power of two; vectors are scaled by a common denominator.
RECURSIVE Den(_)
Den(ps) == IF ps = << >> THEN 1 ELSE LET r == Dot(ps[1].y, ps[1].s) IN r * r * Den(Tail(ps))
\* Dense(ps, d, x): product of the approximation with x, scaled by d >= Den(ps);
\* H' = (1 - s y'/r) H (1 - y s'/r) + s s'/r, h0 the diagonal of H0
\* initial matrix diag(h0)/m; the result is scaled by m Den(ps)
RECURSIVE DenseS(_, _, _, _)
DenseS(ps, h0, m, x) ==
  IF ps = << >> THEN [i \in 1..Len(x) |-> h0[i] * x[i]]
  ELSE LET u == ps[Len(ps)] r == Dot(u.y, u.s) prev == SubSeq(ps, 1, Len(ps)-1)
           a == Dot(u.s, x)
           z == [i \in 1..Len(x) |-> r * x[i] - a * u.y[i]]             \* r (1 - y s'/r) x
           w == DenseS(prev, h0, m, z)
           b == Dot(u.y, w)
       IN [i \in 1..Len(x) |-> r * w[i] - b * u.s[i] + r * Den(prev) * m * a * u.s[i]]
Dense(ps, h0, x) == DenseS(ps, h0, 1, x)
\* two-loop recursion with rational scaling: the same product
RECURSIVE Down(_, _, _), Up(_, _, _, _, _)
Down(ps, q, D) ==      \* q scaled by D (a multiple of all r); returns alphas and q
  IF ps = << >> THEN [al |-> << >>, q |-> q]
  ELSE LET u == ps[Len(ps)] a == Dot(u.s, q) \div Dot(u.y, u.s)
           rest == Down(SubSeq(ps, 1, Len(ps)-1), [i \in 1..Len(q) |-> q[i] - a * u.y[i]], D)
       IN [al |-> Append(rest.al, a), q |-> rest.q]
Up(ps, al, q, k, D) ==
  IF k > Len(ps) THEN q
  ELSE LET u == ps[k] bt == Dot(u.y, q) \div Dot(u.y, u.s)
       IN Up(ps, al, [i \in 1..Len(q) |-> q[i] + (al[k] - bt) * u.s[i]], k + 1, D)
TwoLoop(ps, h0, x) ==
  LET D == Den(ps) dn == Down(ps, [i \in 1..Len(x) |-> D * x[i]], D)
  IN Up(ps, dn.al, [i \in 1..Len(x) |-> h0[i] * dn.q[i]], 1, D)
\* v, scaled by 10^4, is num/den
Close(v, num, den) == AbsI(v - 10000 * (num \div den) - (10000 * (num % den)) \div den) <= 3
=============================================================================
