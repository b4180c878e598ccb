----------------------------- MODULE QuasiTrace ------------------------------
EXTENDS Quasi, Replay
Quad(r) == r.shape < 2
\* the point, value and gradient handed back belong together and lie on the line
Consistent(r) == r.pos /\ r.on <= 2 /\ r.fd <= 2 /\ r.gd <= 2
Exact(r) == r.ex => LET X == At(r.x0, r.p, r.k) IN
  /\ r.f2 = Twice(r.A, r.b, X, r.k) /\ r.gk = Grad(r.A, r.b, X, r.k)
LineOK(r) ==
  /\ r.same
  /\ (r.out = "ok" => Consistent(r) /\ Exact(r))
  /\ (Quad(r) /\ r.p # << >> => LET dg == Slope(r.A, r.b, r.x0, r.p) IN r.sgn = (IF dg > 0 THEN 1 ELSE IF dg < 0 THEN -1 ELSE 0))
  /\ CASE r.which = 0 ->
            /\ (r.sgn > 0 \/ r.st <= 0 => r.out = "error")
            /\ (r.out = "ok" /\ ~r.big => r.f <= r.f0 /\ 2 * (r.f - r.f0) <= 2 - r.sd)
            /\ (Quad(r) /\ r.out = "ok" /\ r.unit => 2 * Pow2(r.k) * Slope(r.A, r.b, r.x0, r.p) + Curve(r.A, r.p) <= 0)
            /\ (Quad(r) /\ r.st > 0 /\ (r.sgn < 0 \/ (r.sgn = 0 /\ Curve(r.A, r.p) <= 0)) => r.out = "ok")
       [] r.which = 1 ->
            /\ (r.sgn > 0 \/ r.st <= 0 => r.out = "error")
            /\ (r.out = "ok" /\ ~r.big => Wolfe(r.f, r.f0, r.dg, r.dg0))
            /\ (Quad(r) /\ r.st > 0 /\ r.sgn < 0 /\ Curve(r.A, r.p) > 0 => r.out = "ok")
            \* functions bounded below along every line, unless the first step shoots far up
            /\ (r.shape >= 2 /\ ~r.wild /\ r.st > 0 /\ r.sgn < 0 => r.out = "ok")
       [] OTHER ->
            /\ r.out = "ok"
            /\ (~r.big => /\ \A i \in 1..100 : r.grid[i] > r.f - 2
                          /\ \E i \in 1..100 : r.grid[i] <= r.f + 2)
Pairs(r) == [i \in 1..Len(r.S) |-> [s |-> r.S[i], y |-> r.Y[i]]]
HessOK(r) ==
  LET ps == Pairs(r) IN
  /\ r.same /\ r.sym <= 100
  /\ (ps # << >> => \A i \in 1..r.n : AbsI(r.secant[i] - 1000000 * r.S[Len(ps)][i]) <= 5)
  \* the product, exactly, when the initial matrix is a power of two diagonal; scaled
  \* initial matrices y.s/y.y by their definition
  /\ LET u == IF r.hk = 2 THEN ps[1] ELSE ps[Len(ps)]
         sc == (r.hk = 1 \/ r.hk = 2) /\ ps # << >>
         a == IF sc THEN Dot(u.y, u.y) ELSE 1                 \* H0 = (y.s / y.y) 1
         h == IF sc THEN [i \in 1..r.n |-> Dot(u.y, u.s)] ELSE r.h0
         m == IF sc THEN a ELSE 4
         \* Dense adds s s'/r unscaled: scale the steps and the vector instead
         e == DenseS(ps, h, m, r.x)
         den == m * Den(ps)
     IN (\A i \in 1..r.n : AbsI(e[i]) \div den < 10000) => \A i \in 1..r.n : Close(r.q[i], e[i], den)
Falling(f) == \A i \in 1..Len(f)-1 : f[i+1] <= f[i]
BfgsOK(r) ==
  LET m == Len(r.conv) IN
  /\ r.same /\ r.last /\ r.gd <= 1
  /\ (\A i \in 1..m : (r.conv[i] = 1) => i = m /\ r.out = "ok")
  /\ m <= r.max /\ (r.out = "notconv" => m = r.max)
  /\ (r.out = "ok" => m > 0 /\ r.conv[m] = 1 /\ r.gn <= 10000)
  /\ Falling(r.f)
  /\ (r.nk >= 0 => /\ r.nk = (IF r.out = "ok" THEN m - 1 ELSE m)
                   /\ r.sd <= 1000 /\ (~r.bent => r.sec <= 1000))
  /\ (r.shape = 0 => /\ (r.out = "ok" => \A i \in 1..r.n : AbsI(Dot(r.A[i], r.x) - 1000000 * r.b[i]) <= (IF r.te THEN 10 ELSE 1000) + 15 * r.n)
                     /\ r.out # "error" /\ (r.max >= 100 => r.out = "ok"))
Accept(r) == \/ r.op = "line" /\ LineOK(r)
             \/ r.op = "hess" /\ HessOK(r)
             \/ r.op = "bfgs" /\ BfgsOK(r)
Judge == Report(Accept(Trace[l]))
=============================================================================
