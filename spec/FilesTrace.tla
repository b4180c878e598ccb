----------------------------- MODULE FilesTrace -----------------------------
(* Recorded histories of file operations.                                    *)
EXTENDS Files, Replay
Untouched == -777
Put(fs, p, c) == [fs EXCEPT ![p+1] = c]
Next1(fs, s) ==
  CASE s.op = "wwf" -> Put(fs, s.p, Wf(s.norb, s.st, s.c))
    [] s.op = "wfci" -> Put(fs, s.p, Fci(LinesOf(s.n, s.T, s.V, s.core)))
    [] s.op = "ffci" -> Put(fs, s.p, Fci(Rng(s.lines)))
    [] s.op = "bfci" -> Put(fs, s.p, Bad(Rng(s.lines)))
    [] s.op = "rbad" -> Put(fs, s.p, None)
    [] s.op = "wrdm" -> Put(fs, s.p, Rdm(s.n, s.A, s.B))
    [] s.op = "cut" -> Put(fs, s.p, [fs[s.p+1] EXCEPT !.cut = TRUE])
    [] OTHER -> fs
Fits(f, N) == \A i \in 1..Len(f.st) : \A j \in 1..2 : \A k \in 1..Len(f.st[i][j]) : f.st[i][j][k] < N \div 2
OK(fs, s) == LET f == fs[s.p+1] IN
  CASE s.op = "wwf" -> s.ok /\ s.h = Header(s.norb, s.st) /\ s.lines
    [] s.op = "cwf" -> ~s.ok /\ s.nc # Len(s.st)
    [] s.op = "rwf" -> IF f.k = "wf" THEN s.ok /\ s.st = f.st /\ s.c = f.c /\ Fits(f, s.N) ELSE ~s.ok
    [] s.op = "wfci" -> s.ok /\ Rng(s.lines) = LinesOf(s.n, s.T, s.V, s.core) /\ Len(s.lines) = s.n*s.n*s.n*s.n + s.n*s.n + 1
    [] s.op = "ffci" -> s.ok /\ Consistent(Rng(s.lines))
    [] s.op = "rfci" -> /\ f.k = "fci" /\ s.n = NOrb(f.lines) /\ s.core = Core(f.lines) /\ s.pad
                        /\ IF s.bad = 1 THEN ~s.ok
                           ELSE s.ok /\ s.T = ReadT(f.lines, s.n, Untouched) /\ s.V = ReadV(f.lines, s.n, Untouched)
    [] s.op = "bfci" -> s.ok /\ \E x \in Rng(s.lines) : ~Legal(x)
    [] s.op = "rbad" -> f.k = "bad" /\ ~s.ok
    [] s.op = "wrdm" -> s.ok
    [] s.op = "cut" -> f.k = "rdm"
    [] s.op = "rrdm" -> /\ s.pad
                        /\ IF f.k = "rdm" /\ ~f.cut /\ f.n = s.n THEN s.ok /\ s.A = f.a /\ s.B = f.b ELSE ~s.ok
    [] OTHER -> FALSE
RECURSIVE Run(_, _, _)
Run(fs, steps, k) == k > Len(steps) \/ (OK(fs, steps[k]) /\ Run(Next1(fs, steps[k]), steps, k+1))
\* tables with two-digit orbitals
Orbit(x) == IF Kind(x) = "two" THEN UNION {{<<a[1], a[2], b[1], b[2], x[5]>>, <<b[1], b[2], a[1], a[2], x[5]>>} :
                                           a \in {<<x[1], x[2]>>, <<x[2], x[1]>>}, b \in {<<x[3], x[4]>>, <<x[4], x[3]>>}}
            ELSE IF Kind(x) = "one" THEN {<<x[1], x[2], 0, 0, x[5]>>, <<x[2], x[1], 0, 0, x[5]>>} ELSE {}
BigOK(r) ==
   LET L == Rng(r.lines) n == r.n IN
   IF r.ours
   THEN /\ r.same /\ r.norb = n /\ r.core = r.c /\ r.nl = n*n*n*n + n*n + 1
        /\ \A x \in L : CASE Kind(x) = "two" -> x[5] = r.V[Ix2(n, x[1], x[2], x[3], x[4])]
                         [] Kind(x) = "one" -> x[5] = r.T[Ix1(n, x[1], x[2])]
                         [] OTHER -> x = <<0, 0, 0, 0, r.c>>
   ELSE /\ r.norb = NOrb(L) /\ r.core = Core(L) /\ Len(r.lines) = r.nl
        /\ Rng(r.got) = UNION {Orbit(x) : x \in L}
Accept(r) == IF r.op = "big" THEN BigOK(r) ELSE r.op = "hist" /\ Run([p \in 1..3 |-> None], r.steps, 1)
Judge == Report(Accept(Trace[l]))
=============================================================================
