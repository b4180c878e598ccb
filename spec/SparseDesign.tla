---------------------------- MODULE SparseDesign ----------------------------
(* The sparse-matrix state machine, with the conversion algorithms written as *)
(* the library performs them (one pass with a running row for coordinate to   *)
(* compressed, counting sort for compressed-column to compressed-row).  The   *)
(* state is the stored matrix together with the mathematical matrix it is     *)
(* meant to be; every history over a small shape is explored.                 *)
EXTENDS Sparse
CONSTANTS MaxM, MaxN
VARIABLES M, A
vars == <<M, A>>
PatOrder(P) == SetToSortSeq(P, LAMBDA a, b : a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2]))
\* an initial coordinate matrix: any pattern, any of two storage orders
Start(m, n, P, x, rev) ==
  LET q == IF rev THEN Reverse(PatOrder(P)) ELSE PatOrder(P)
      ent == {<<q[k][1], q[k][2], k>> : k \in 1..Len(q)}
  IN [m |-> m, n |-> n, ent |-> ent, rep |->
      [f |-> "coo", x |-> x, m |-> m, n |-> n, nnz |-> Len(q), p |-> <<>>,
       r |-> [k \in 1..Len(q) |-> q[k][1] + x], c |-> [k \in 1..Len(q) |-> q[k][2] + x], v |-> [k \in 1..Len(q) |-> k]]]
Init == \E m \in 1..MaxM, n \in 1..MaxN, x \in {0, 1}, rev \in BOOLEAN :
          \E P \in SUBSET ((0..m-1) \X (0..n-1)) :
             LET s == Start(m, n, P, x, rev) IN M = s.rep /\ A = Mat(m, n, s.ent)
Perm3(s, ord) == [k \in 1..Len(s) |-> s[ord[k]]]
Ord(key(_, _)) == SetToSortSeq(1..M.nnz, LAMBDA a, b : key(a, b))
SortRow == /\ M.f = "coo"
           /\ LET o == Ord(LAMBDA a, b : M.r[a] < M.r[b] \/ (M.r[a] = M.r[b] /\ M.c[a] < M.c[b]))
              IN M' = [M EXCEPT !.r = Perm3(M.r, o), !.c = Perm3(M.c, o), !.v = Perm3(M.v, o)]
           /\ UNCHANGED A
SortCol == /\ M.f = "coo"
           /\ LET o == Ord(LAMBDA a, b : M.c[a] < M.c[b] \/ (M.c[a] = M.c[b] /\ M.r[a] < M.r[b]))
              IN M' = [M EXCEPT !.r = Perm3(M.r, o), !.c = Perm3(M.c, o), !.v = Perm3(M.v, o)]
           /\ UNCHANGED A
\* pointer array of a non-descending index sequence: a new line starts at the
\* first entry that is not on the lines begun so far (empty lines included)
RECURSIVE Scan(_, _, _, _, _)
Scan(s, k, x, cnt, p) == \* p: pointers fixed so far
  IF Len(p) = cnt + 1 THEN p
  ELSE IF k > Len(s) THEN Scan(s, k, x, cnt, Append(p, Len(s) + x))
  ELSE IF s[k] # Len(p) - 1 + x THEN Scan(s, k, x, cnt, Append(p, k - 1 + x))
  ELSE Scan(s, k + 1, x, cnt, p)
CooCsr == /\ M.f = "coo" /\ RowSorted(M)
          /\ M' = [M EXCEPT !.f = "csr", !.p = Scan(M.r, 1, M.x, M.m, <<M.x>>), !.r = <<>>]
          /\ UNCHANGED A
CooCsc == /\ M.f = "coo" /\ ColSorted(M)
          /\ M' = [M EXCEPT !.f = "csc", !.p = Scan(M.c, 1, M.x, M.n, <<M.x>>), !.c = <<>>]
          /\ UNCHANGED A
CsrCoo == /\ M.f = "csr"
          /\ M' = [M EXCEPT !.f = "coo", !.p = <<>>, !.r = [k \in 1..M.nnz |-> Line(M.p, M.x, k) + M.x]]
          /\ UNCHANGED A
\* counting sort: count per row, running sum, place the entries column by column
Before(k) == Cardinality({q \in 1..M.nnz : M.r[q] < M.r[k] \/ (M.r[q] = M.r[k] /\ q < k)})
CscCsr == /\ M.f = "csc"
          /\ LET at == [k \in 1..M.nnz |-> Before(k) + 1]
                 src == [d \in 1..M.nnz |-> CHOOSE k \in 1..M.nnz : at[k] = d]
             IN M' = [M EXCEPT !.f = "csr", !.r = <<>>,
                        !.p = [i \in 1..M.m+1 |-> Cardinality({q \in 1..M.nnz : M.r[q] - M.x < i - 1}) + M.x],
                        !.c = [d \in 1..M.nnz |-> Line(M.p, M.x, src[d]) + M.x],
                        !.v = [d \in 1..M.nnz |-> M.v[src[d]]]]
          /\ UNCHANGED A
SetBase == /\ M.f = "csr"
           /\ \E x \in {0, 1} : M' = [M EXCEPT !.x = x, !.c = [k \in 1..M.nnz |-> M.c[k] - M.x + x],
                                                !.p = [i \in 1..Len(M.p) |-> M.p[i] - M.x + x]]
           /\ UNCHANGED A
ExpandT == /\ M.f = "coo"
           /\ LET lt == \A k \in 1..M.nnz : M.r[k] <= M.c[k]
                  ut == \A k \in 1..M.nnz : M.r[k] >= M.c[k]
                  off == SelectSeq([k \in 1..M.nnz |-> k], LAMBDA k : M.r[k] # M.c[k])
              IN IF lt = ut \/ M.m # M.n THEN UNCHANGED M
                 ELSE M' = [M EXCEPT !.r = @ \o [k \in 1..Len(off) |-> M.c[off[k]]],
                                     !.c = @ \o [k \in 1..Len(off) |-> M.r[off[k]]],
                                     !.v = @ \o [k \in 1..Len(off) |-> M.v[off[k]]],
                                     !.nnz = @ + Len(off)]
           /\ A' = Expand(A)
Next == SortRow \/ SortCol \/ CooCsr \/ CooCsc \/ CsrCoo \/ CscCsr \/ SetBase \/ ExpandT
Spec == Init /\ [][Next]_vars
Faithful == Represents(M, A)
\* ------------------------------- laws of the operations, on every matrix met
Perms(n) == {p \in [1..n -> 0..n-1] : IsPerm(p, n)}
Ranges(n) == {<<a, b>> \in (0..n) \X (0..n) : a <= b}
Laws ==
  /\ Transpose(Transpose(A)) = A
  /\ \A p \in Perms(A.m) : /\ PermRows(PermRows(A, p), InvPerm(p)) = A
                           /\ InvPerm(InvPerm(p)) = p
                           /\ A.m = A.n => TraceOf(PermRows(PermCols(A, p), p)) = TraceOf(A)
  /\ \A p \in Perms(A.n) : PermCols(A, p) = Transpose(PermRows(Transpose(A), p))
  /\ \A rr \in Ranges(A.m), cc \in Ranges(A.n) :
       LET lo == <<rr[1], cc[1]>> up == <<rr[2], cc[2]>> IN
       \* the two extractions split the rows of the range
       {<<t[1], t[2] + lo[2], t[3]>> : t \in Sub(A, lo, up).e} \cup SubExcl(A, lo, up).e
         = Sub(A, <<lo[1], 0>>, <<up[1], A.n>>).e
  /\ Upper(A).e \cup Transpose(Upper(Transpose(A))).e = A.e
  /\ Expand(Expand(A)) = Expand(A)
=============================================================================
