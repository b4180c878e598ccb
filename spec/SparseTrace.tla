---------------------------- MODULE SparseTrace ----------------------------
(* Recorded histories and calls of the sparse-matrix library, judged by the  *)
(* operations of Sparse.                                                     *)
EXTENDS Sparse, Replay
\* One step of a history: stored matrix M representing A becomes s.out.  The
\* result is the mathematical matrix after the step, or "no".
Keep(s, M, A) == s.out = M                       \* a pure observer
Formats(s, f) == s.out.f = f
Tag(M) == M.f = "coo" => M.rs = RowSorted(M) /\ M.cs = ColSorted(M)
After(s, A) == IF s.o = "expand" THEN Expand(A) ELSE A
DenseOK(s, A) == \A q \in 1..Len(s.d) :
   LET i == (q-1) % s.ld j == (q-1) \div s.ld
   IN s.d[q] = IF i < A.m /\ j < A.n THEN ElemOr0(A, i, j) ELSE 777
StepOK(s, M, A) ==
  /\ Represents(s.out, After(s, A)) /\ Tag(s.out)
  /\ s.o # "setidx" => s.out.x = M.x
  /\ CASE s.o = "sortrow" -> Formats(s, "coo") /\ RowLex(s.out)
       [] s.o = "sortcol" -> Formats(s, "coo") /\ ColLex(s.out)
       [] s.o = "tocsr" -> Formats(s, "csr") /\ (M.f = "coo" => RowSorted(M))
       [] s.o = "tocsr!" -> Keep(s, M, A) /\ ~RowSorted(M)
       [] s.o = "tocsc" -> Formats(s, "csc") /\ ColSorted(M)
       [] s.o = "tocsc!" -> Keep(s, M, A) /\ ~ColSorted(M)
       [] s.o = "tocoo" -> Formats(s, "coo") /\ RowSorted(s.out)
       [] s.o = "expand" -> Formats(s, "coo")
       [] s.o = "detidx" -> Keep(s, M, A)
       [] s.o = "setidx" -> Formats(s, "csr") /\ s.out.x = s.arg
       [] s.o = "dense" -> Keep(s, M, A) /\ DenseOK(s, A)
       [] s.o = "copy" -> Keep(s, M, A) /\ s.same
       [] s.o = "shrink" -> Keep(s, M, A) /\ s.mem
       [] s.o = "equal" -> Keep(s, M, A) /\ \A i \in 1..Len(s.res) : s.res[i]
       [] OTHER -> FALSE
RECURSIVE Run(_, _, _, _)
Run(steps, k, M, A) == k > Len(steps) \/ (StepOK(steps[k], M, A) /\ Run(steps, k+1, steps[k].out, After(steps[k], A)))
HistOK(r) == /\ WF(r.init) /\ Tag(r.init) /\ Run(r.steps, 1, r.init, Abs(r.init))
\* ------------------------------------------------------------------- parts
CsrOf(M, A, x) == M.f = "csr" /\ M.x = x /\ Represents(M, A)
PartOK(r) == LET A == Abs(r.in) IN
  /\ Represents(r.in, A)
  /\ CASE r.o = "sub" -> CsrOf(r.out, Sub(A, r.lo, r.up), r.in.x)
       [] r.o = "subx" -> CsrOf(r.out, SubExcl(A, r.lo, r.up), r.in.x)
       [] r.o = "upper" -> CsrOf(r.out, Upper(A), r.in.x)
       [] r.o = "diag" -> r.res = Diag(A)
       [] r.o = "trace" -> r.res = TraceOf(A)
       [] r.o = "permr" -> CsrOf(r.out, PermRows(A, r.p), r.in.x)
       [] r.o = "permc" -> CsrOf(r.out, PermCols(A, r.p), r.in.x) /\ RowsAscending(r.out)
       [] r.o = "permrc" -> CsrOf(r.out, PermCols(PermRows(A, r.p), r.q), r.in.x) /\ RowsAscending(r.out)
       [] r.o = "chain" -> CsrOf(r.out, Sub(PermCols(PermRows(A, r.p), r.q), r.lo, r.up), r.in.x)
       [] r.o = "back" -> CsrOf(r.out, A, r.in.x)
       [] r.o = "adj" -> /\ PtrOK(r.rp, A.m, r.x, Len(r.ci)) /\ IdxOK(r.ci, A.n, r.x)
                         /\ {<<Line(r.rp, r.x, k), r.ci[k] - r.x>> : k \in 1..Len(r.ci)} = Adjacency(A)
                         /\ Len(r.ci) = Cardinality(Adjacency(A))
       [] OTHER -> FALSE
FromPartOK(r) == LET n == Len(r.part) IN
  /\ IsPerm(r.perm, n) /\ Len(r.ptr) = r.np + 1 /\ r.ptr[1] = 0 /\ r.ptr[r.np+1] = n
  /\ \A q \in 0..r.np-1 :
        /\ r.ptr[q+1] <= r.ptr[q+2]
        /\ (\A k \in r.ptr[q+1]+1..r.ptr[q+2] : r.part[r.perm[k]+1] = q)
        /\ (\A k \in r.ptr[q+1]+1..r.ptr[q+2]-1 : r.perm[k] < r.perm[k+1])
PermVecOK(r) == LET n == Len(r.p) IN
  /\ \A i \in 1..n : r.f[r.p[i]+1] = r.v[i] /\ r.b[i] = r.v[r.p[i]+1]
  /\ r.fi = r.f /\ r.bi = r.b /\ r.inv = InvPerm(r.p)
\* ---------------------------------------------------------------- products
ProdOK(r) == LET A == Abs(r.in) IN r.ok /\ r.R = Times(A, r.al, r.V, r.be, r.W)
\* ------------------------------------------------------------------- files
\* A coordinate text: header, dimensions, then one line per entry.  Its index
\* base is zero exactly when an index zero occurs.
TextBase(b) == IF \E k \in 1..Len(b) : b[k][1] = 0 \/ b[k][2] = 0 THEN 0 ELSE 1
TextAbs(dims, b) == LET x == TextBase(b) IN Mat(dims[1], dims[2], {<<b[k][1] - x, b[k][2] - x, b[k][3]>> : k \in 1..Len(b)})
\* zero-based text is recognisable only by an entry in the first row or column
Recognisable(A, x) == x = 1 \/ (\E t \in A.e : t[1] = 0 \/ t[2] = 0)
SymFull(A, sym) == IF sym THEN Mat(A.m, A.n, A.e \cup {<<t[2], t[1], t[3]>> : t \in A.e}) ELSE A
Reads(r, A, x) == /\ r.csr.f = "csr" /\ Represents(r.csr, A) /\ r.csr.x = x
                  /\ r.coo.f = "coo" /\ Represents(r.coo, A) /\ r.coo.x = x
WmmOK(r) == LET A == Abs(r.in)
                x == IF r.forced >= 0 THEN r.forced ELSE r.in.x IN
  /\ r.hdr /\ r.dims = <<A.m, A.n, Cardinality(A.e)>> /\ Len(r.body) = Cardinality(A.e)
  /\ {<<r.body[k][1] - x, r.body[k][2] - x, r.body[k][3]>> : k \in 1..Len(r.body)} = A.e
  /\ ((Recognisable(A, x) \/ A.e = {}) => (Reads(r, A, IF A.e = {} THEN 1 ELSE x) /\ Represents(r.csc, A) /\ r.csc.f = "csc"))
RmmOK(r) == LET B == TextAbs(r.dims, r.ent) A == SymFull(B, r.sym) IN
  Reads(r, A, TextBase(r.ent)) /\ Represents(r.csc, A) /\ r.csc.f = "csc" /\ r.csc.x = TextBase(r.ent)
\* binary triplets holding one triangle only denote the symmetric matrix
BinOK(r) == LET A == Abs(r.in) IN
  (Recognisable(A, r.in.x) \/ A.e = {}) => Reads(r, Expand(A), IF A.e = {} THEN 1 ELSE r.in.x)
RbOK(r) == LET B == [f |-> "csc", x |-> 1, m |-> r.dims[1], n |-> r.dims[2], nnz |-> Len(r.v), p |-> r.cp, r |-> r.ri, v |-> r.v]
               A == SymFull(Abs(B), r.sym) IN
  /\ r.csc.f = "csc" /\ Represents(r.csc, A) /\ r.csr.f = "csr" /\ Represents(r.csr, A)
\* ------------------------------------------- the distributed sparse matrix
\* default row shares: equal, the last process takes the remainder
DefaultTiles(np, n) == [i \in 1..np |-> <<(i-1) * (n \div np), IF i = np THEN n ELSE i * (n \div np)>>]
Needed(A, b) == {t[2] : t \in {u \in A.e : u[1] >= b[1] /\ u[1] < b[2]}} \ (b[1]..b[2]-1)
DistOK(r) ==
  LET A == Abs(r.in) n == A.m
      tiles == IF r.custom THEN r.tiles ELSE DefaultTiles(r.np, n)
      need(i) == Cardinality(Needed(A, tiles[i]))
      x == IF r.forced = -1 THEN 0 ELSE r.forced
  IN /\ Len(r.ranks) = r.np
     /\ \A i \in 1..r.np :
          LET k == r.ranks[i] b == tiles[i] IN
          /\ k.bounds = tiles /\ <<k.lo, k.hi>> = b /\ k.ext = b[2] - b[1] /\ k.start = b[1] /\ k.gm = n /\ k.gn = n /\ k.mem
          /\ CsrOf(k.diag, Sub(A, <<b[1], b[1]>>, <<b[2], b[2]>>), 0)
          /\ CsrOf(k.off, SubExcl(A, <<b[1], b[1]>>, <<b[2], b[2]>>), 0)
          /\ k.nnz = k.diag.nnz + k.off.nnz
          /\ \A q \in 1..Len(k.prods) :
               LET p == k.prods[q] full == Times(A, p.al, <<p.V>>, p.be, <<p.W>>)[1] IN
               p.R = SubSeq(full, b[1] + 1, b[2]) \o <<777>>
     \* every needed element travels once (halves are counted per process, rounded down)
     /\ \A i \in 1..r.np : LET tot == SumTo(r.np, LAMBDA j : need(j)) IN
          r.ranks[i].vol = r.ranks[1].vol /\ r.ranks[i].vol <= tot /\ r.ranks[i].vol >= tot - r.np
     /\ r.hdr /\ r.dims = <<n, n, Cardinality(A.e)>> /\ Len(r.body) = Cardinality(A.e)
     /\ {<<r.body[q][1] - x, r.body[q][2] - x, r.body[q][3]>> : q \in 1..Len(r.body)} = A.e
     /\ (Recognisable(A, x) => CsrOf(r.back, A, x))
\* a container made by shape alone: one-based unless a base is given
ShapeOK(r) == /\ r.got = <<r.want[1], r.want[2], r.want[3], IF r.b = -1 THEN 1 ELSE r.b>>
              /\ r.len = <<r.want[3], r.want[3], r.ptr>>
Accept(r) ==
  CASE r.op = "hist" -> HistOK(r)
    [] r.op = "part" -> PartOK(r)
    [] r.op = "frompart" -> FromPartOK(r)
    [] r.op = "permvec" -> PermVecOK(r)
    [] r.op = "prod" -> ProdOK(r)
    [] r.op = "cooctor" -> r.thrown = ~(r.len[1] = r.len[2] /\ r.len[2] = r.len[3]) /\ (~r.thrown => r.nnz = r.len[1])
    [] r.op = "shape" -> ShapeOK(r)
    [] r.op = "own" -> r.copy = r.in /\ r.assign = r.in /\ r.moved = r.in /\ r.movea = r.in
    [] r.op = "densld" -> r.thrown = IF r.ld < r.m THEN 3 ELSE 0
    [] r.op = "wmm" -> WmmOK(r)
    [] r.op = "rmm" -> RmmOK(r)
    [] r.op = "bin" -> BinOK(r)
    [] r.op = "rb" -> RbOK(r)
    [] r.op = "threads" -> \A i \in 1..Len(r.d) : r.d[i] = r.d[1]
    [] r.op = "refuse" -> r.thrown
    [] r.op = "dist" -> DistOK(r)
    [] r.op = "tiles" -> r.thrown = ~r.legal
    [] OTHER -> FALSE
Judge == Report(Accept(Trace[l]))
=============================================================================
