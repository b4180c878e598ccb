---------------------------- MODULE DistHamTrace ----------------------------
EXTENDS Replay, Fock
Dets(s) == [i \in 1..Len(s) |-> Rng(s[i])]
\* entries of a stored tile as a set <<row, col, value>> (zero based, global)
TileOk(t, rows) ==
   /\ t.m = rows
   /\ Len(t.rp) = t.m + 1 /\ t.rp[1] = t.ind /\ t.rp[t.m+1] = t.ind + t.nnz
   /\ \A i \in 1..t.m : t.rp[i] <= t.rp[i+1]
   /\ Len(t.ci) = t.nnz /\ Len(t.nz) = t.nnz
   /\ \A i \in 1..t.nnz : t.ci[i] - t.ind \in 0..t.n-1
TileCells(t, r0, c0) == UNION {{<<i-1+r0, t.ci[x] - t.ind + c0, t.nz[x]>> : x \in (t.rp[i]-t.ind+1)..(t.rp[i+1]-t.ind)} : i \in 1..t.m}
DistOk(r) ==
  LET d == Dets(r.dets) n == Len(d) hh == r.n \div 2
      \* columns a row can have entries in: all, or for long lists those listed
      near == [i \in 0..n-1 |-> IF "near" \in DOMAIN r THEN Rng(r.near[i+1]) ELSE 0..n-1]
      M == [i \in 0..n-1 |-> [j \in near[i] |->
              LET v == HElem(d[i+1], d[j+1], hh, LAMBDA p, q : FT(r.k, p, q), LAMBDA p, q, s, t : FV(r.k, p, q, s, t))
              IN IF 2 * AbsI(v) > r.th2 THEN v ELSE 0]]
      Mx(v) == [i \in 0..n-1 |-> SumOver(near[i], LAMBDA j : M[i][j] * v[j+1])]
      y1 == Mx(r.x)
      y2 == [i \in 1..n |-> y1[i-1]]
      y3 == Mx(y2)
      R(p) == r.ranks[p+1]
  IN /\ r.m = n /\ r.nn = n /\ Len(r.ranks) = r.np
     \* every process sees the same partition, which covers all rows in order
     /\ \A p \in 0..r.np-1 : R(p).ext = R(0).ext /\ R(p).lo = R(p).ext[p+1][1] /\ R(p).hi = R(p).ext[p+1][2]
                             /\ R(p).locext = R(p).hi - R(p).lo /\ R(p).locst = R(p).lo /\ R(p).lo <= R(p).hi
     /\ R(0).lo = 0 /\ R(r.np-1).hi = n /\ \A p \in 0..r.np-2 : R(p).hi = R(p+1).lo
     /\ \A p \in 0..r.np-1 : LET own == R(p).lo..R(p).hi-1 w == R(p).hi - R(p).lo IN
          /\ R(p).dg.has /\ TileOk(R(p).dg, w) /\ R(p).dg.n = w
          /\ (r.np > 1 => R(p).od.has /\ TileOk(R(p).od, w) /\ R(p).od.n = n)
          /\ LET dc == TileCells(R(p).dg, R(p).lo, R(p).lo)
                 oc == IF R(p).od.has THEN TileCells(R(p).od, R(p).lo, 0) ELSE {}
                 want == {c \in UNION {{<<i, j, M[i][j]>> : j \in near[i]} : i \in own} : c[3] # 0}
             IN /\ dc = {c \in want : c[2] \in own} /\ oc = {c \in want : c[2] \notin own}
                /\ R(p).nnz = Cardinality(want)
          /\ Len(R(p).y) = w /\ Len(R(p).y2) = w /\ Len(R(p).y3) = w
          /\ \A i \in own : LET c == i - R(p).lo + 1 IN
               /\ R(p).y[c] = r.al * y1[i] + r.be * r.w[i+1]
               /\ R(p).y2[c] = y1[i] /\ R(p).y3[c] = y3[i]
Accept(r) == r.op = "dist" /\ DistOk(r)
Judge == Report(Accept(Trace[l]))
=============================================================================
