------------------------------ MODULE GrowTrace ------------------------------
EXTENDS Replay, Fock, Eigen
G == INSTANCE Grow WITH MaxW <- 0, Factors <- {}, MaxIt <- 0, Energies <- {},
                        w <- 0, f <- 0, lo <- 0, hi <- 0, cap <- 0, st <- "", it <- 0, e <- 0, hist <- <<>>, tol <- 0
Dets(s) == [i \in 1..Len(s) |-> Rng(s[i])]
El(r, b, k) == HElem(b, k, r.n \div 2, LAMBDA p, q : FT(r.k, p, q), LAMBDA p, q, s, t : FV(r.k, p, q, s, t))
Matrix(r, d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> El(r, d[i], d[j])]]
\* energy, coefficients and determinants belong together
Together(r, w, d) ==
  /\ Len(w.x) = Len(d) /\ Cardinality(Rng(d)) = Len(d)
  /\ \A i \in 1..Len(d) : LET a == Al(d[i], r.n \div 2) b == Be(d[i], r.n \div 2) IN
        a \cup b \subseteq 0..r.norb-1 /\ Cardinality(a) = r.na /\ Cardinality(b) = r.nb
  /\ AbsI(w.nrm) <= 1000
  /\ (r.rot \/ Eigenpair(Matrix(r, d), w.x, w.e6))
Solved(w) == w.res \in 0..100 /\ AbsI(w.quad - w.e6) <= 2        \* 10^-8 * 100
Same(r) == \A p \in 1..r.np : r.ranks[p].out = r.ranks[1].out /\ r.ranks[p].dets = r.ranks[1].dets
             /\ r.ranks[p].e6 = r.ranks[1].e6 /\ r.ranks[p].x = r.ranks[1].x
\* with rotations, every list from the given size on is solved once more
RECURSIVE Doubled(_, _)
Doubled(s, from) == IF s = <<>> THEN <<>> ELSE (IF s[1] >= from THEN <<s[1], s[1]>> ELSE <<s[1]>>) \o Doubled(Tail(s), from)
GrowOk(r) ==
  LET n0 == Len(r.w0) want == G!Sizes(n0, r.gf, r.ntmin, r.ntmax)
      last == IF want = <<>> THEN n0 ELSE want[Len(want)]
      seq == IF r.rot THEN Doubled(want, r.rotst) ELSE want
      w == r.ranks[1] d == Dets(w.dets) IN
  /\ Same(r)
  /\ \A p \in 1..Len(r.ints) : r.ints[p] = r.ints[1]     \* one Hamiltonian everywhere
  /\ AbsI(r.ref1 - r.ref0) <= 2                           \* rotations keep the physics
  /\ IF w.out = "ok"
     THEN /\ last >= r.ntmax
          /\ Len(d) = Max2(n0, r.ntmax)
          /\ (r.np = 1 => r.hist = seq)
          /\ IF want = <<>> THEN w.dets = r.w0 /\ w.x = r.x0 /\ w.e6 = r.e0
             ELSE /\ Together(r, w, d) /\ Solved(w)
                  /\ w.e6 >= r.ref0 - 2
     ELSE \* a visible failure has a reason: no larger list was asked for, or fewer came
          \/ last < r.ntmax
          \/ r.ntmax > r.full
          \/ ~r.davok
          \/ r.rot /\ r.np = 1
          \/ r.np > 1 /\ (~r.serok \/ r.na = r.nb)   \* spin symmetry: exactly cancelling scores
          \/ /\ Len(r.hist) >= 1 /\ Len(r.hist) <= Len(want)
             /\ \A i \in 1..Len(r.hist)-1 : r.hist[i] = want[i]
             /\ r.hist[Len(r.hist)] < want[Len(r.hist)]
Near(a, b) == AbsI(a - b) <= 2
RefineOk(r) ==
  LET w == r.ranks[1] d == Dets(w.dets) k == Len(r.hist)
      prev(i) == IF i = 1 THEN r.es ELSE r.ens[i-1]
      step(i) == AbsI(r.ens[i] - prev(i)) IN
  /\ Same(r)
  /\ (w.out = "ok" => /\ Len(d) = r.size /\ Together(r, w, d) /\ Solved(w) /\ r.maxit > 0)
  /\ IF r.np = 1
     THEN /\ k <= r.maxit
          /\ \A i \in 1..k-1 : step(i) >= r.tol - 2                 \* went on only while energies differed
          /\ \A i \in 1..k-1 : r.hist[i] = r.size
          /\ (w.out = "ok" => k >= 1 /\ step(k) <= r.tol + 2 /\ r.hist[k] = r.size /\ Near(w.e6, r.ens[k]) /\ Rng(r.lists[k]) = Rng(w.dets))
          /\ (w.out # "ok" => \/ k = r.maxit /\ (k = 0 \/ step(k) >= r.tol - 2)
                              \/ k >= 1 /\ r.hist[k] # r.size
                              \/ k >= 1 /\ r.ens[k] = 1999999999
                              \/ ~r.davok)
     ELSE TRUE
\* one round: the search starts from the members with the largest coefficients,
\* in whatever order they come, and what it found is solved
A == INSTANCE Asci
IterOk(r) ==
  LET d == Dets(r.dets)
      top == A!Largest(r.c, 1..Len(d), r.ncd)
      core == [i \in 1..Len(top) |-> d[top[i]]]
      c == [i \in 1..Len(top) |-> r.c[top[i]]]
      sc == A!Scores(r.n, r.norb, r.k, r.e2, core, c, 0, r.js)
      w == r.ranks[1]
      list == IF w.out = "ok" THEN Dets(w.dets) ELSE Dets(r.list) IN
  /\ Same(r)
  /\ (w.out = "ok" \/ r.np = 1 => A!Legal(list, core, r.nmax, sc))
  /\ (r.np = 1 => Rng(Dets(r.list)) = Rng(list) /\ Len(r.list) = Len(list))
  /\ (w.out = "ok" => Together(r, w, list) /\ Solved(w))
  /\ (w.out # "ok" => ~r.davok)
Accept(r) == \/ r.op = "grow" /\ GrowOk(r)
             \/ r.op = "iter" /\ IterOk(r)
             \/ r.op = "refine" /\ RefineOk(r)
Judge == Report(Accept(Trace[l]))
==============================================================================
