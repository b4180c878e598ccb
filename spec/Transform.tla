----------------------------- MODULE Transform -----------------------------
(* Change of basis of one- and two-electron integral tables: every index is  *)
(* contracted with one column of the coefficient matrix.  Tables are         *)
(* sequences in column-major order.                                          *)
EXTENDS Util
\* entry (a,b) or (a,b,c,d), counted from zero, of an n-dimensional table
M2(X, n, a, b) == X[a + n*b + 1]
M4(X, n, a, b, c, d) == X[a + n*(b + n*(c + n*d)) + 1]
Dig(q, n, j) == IF j = 1 THEN q % n ELSE IF j = 2 THEN (q \div n) % n ELSE IF j = 3 THEN (q \div (n*n)) % n ELSE q \div (n*n*n)
Tab2(n, f(_, _)) == [q \in 1..n*n |-> f((q-1) % n, (q-1) \div n)]
Tab4(n, f(_, _, _, _)) == [q \in 1..n*n*n*n |-> f(Dig(q-1, n, 1), Dig(q-1, n, 2), Dig(q-1, n, 3), Dig(q-1, n, 4))]
S0(n, f(_)) == SumTo(n, LAMBDA i : f(i-1))
TwoIx(n, m, X, C) == Tab2(m, LAMBDA p, q : S0(n, LAMBDA i : S0(n, LAMBDA j : M2(C, n, i, p) * M2(C, n, j, q) * M2(X, n, i, j))))
FourIx(n, m, X, C) == Tab4(m, LAMBDA p, q, r, s :
   S0(n, LAMBDA i : S0(n, LAMBDA j : S0(n, LAMBDA k : S0(n, LAMBDA h :
      M2(C, n, i, p) * M2(C, n, j, q) * M2(C, n, k, r) * M2(C, n, h, s) * M4(X, n, i, j, k, h))))))
\* One index at a time.  A table with index lengths d = <<d1,..,dk>>.
Size(d) == FoldLeft(LAMBDA a, x : a * x, 1, d)
StrideOf(d, j) == Size(SubSeq(d, 1, j-1))
Quarter(d, n, m, X, C, j) ==
  LET st == StrideOf(d, j) e == [d EXCEPT ![j] = m]
  IN [q \in 1..Size(e) |-> LET lo == (q-1) % st p == ((q-1) \div st) % m hi == (q-1) \div (st * m)
                           IN S0(n, LAMBDA i : M2(C, n, i, p) * X[lo + st*(i + n*hi) + 1])]
FourStaged(n, m, X, C) ==
  LET Y1 == Quarter(<<n,n,n,n>>, n, m, X, C, 1)
      Y2 == Quarter(<<m,n,n,n>>, n, m, Y1, C, 2)
      Y3 == Quarter(<<m,m,n,n>>, n, m, Y2, C, 3)
  IN Quarter(<<m,m,m,n>>, n, m, Y3, C, 4)
MatMul(n, m, h, A, B) == [q \in 1..n*h |-> S0(m, LAMBDA i : M2(A, n, (q-1) % n, i) * M2(B, m, i, (q-1) \div n))]
Ident(n) == [q \in 1..n*n |-> IF (q-1) % n = (q-1) \div n THEN 1 ELSE 0]
fX(k, a, b, c, d) == ((a*5 + b*11 + c*17 + d*3 + a*b*7 + c*d + a*d*2 + b*c*3 + k) % 13) - 6
=============================================================================
