------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices: what a stored matrix means, when it is well formed, and   *)
(* what every operation of the sparse-matrix library does to it.              *)
(*                                                                            *)
(* A mathematical matrix is [m, n, e] with e a set of entries <<i, j, v>>,    *)
(* zero-based.  Stored entries with value zero count as entries.              *)
(* A stored matrix is a record with f (format), x (index base), m, n, nnz and *)
(*   coo: r, c, v      csr: p, c, v      csc: p, r, v                         *)
EXTENDS Util

Mat(m, n, e) == [m |-> m, n |-> n, e |-> e]
\* ---------------------------------------------------------------- well-formed
PtrOK(p, cnt, x, nnz) == /\ Len(p) = cnt + 1 /\ p[1] = x /\ p[cnt+1] = nnz + x
                         /\ \A i \in 1..cnt : p[i] <= p[i+1]
IdxOK(s, lim, x) == \A k \in 1..Len(s) : s[k] >= x /\ s[k] < lim + x
WF(M) == /\ M.nnz = Len(M.v) /\ M.x \in {0, 1}
         /\ \/ /\ M.f = "coo" /\ Len(M.r) = M.nnz /\ Len(M.c) = M.nnz
               /\ IdxOK(M.r, M.m, M.x) /\ IdxOK(M.c, M.n, M.x)
            \/ /\ M.f = "csr" /\ Len(M.c) = M.nnz /\ PtrOK(M.p, M.m, M.x, M.nnz) /\ IdxOK(M.c, M.n, M.x)
            \/ /\ M.f = "csc" /\ Len(M.r) = M.nnz /\ PtrOK(M.p, M.n, M.x, M.nnz) /\ IdxOK(M.r, M.m, M.x)
\* the compressed dimension's index of stored entry k
Line(p, x, k) == CHOOSE i \in 0..Len(p)-2 : p[i+1] - x < k /\ k <= p[i+2] - x
RowsOf(M) == IF M.f = "csr" THEN [k \in 1..M.nnz |-> Line(M.p, M.x, k)] ELSE [k \in 1..M.nnz |-> M.r[k] - M.x]
ColsOf(M) == IF M.f = "csc" THEN [k \in 1..M.nnz |-> Line(M.p, M.x, k)] ELSE [k \in 1..M.nnz |-> M.c[k] - M.x]
Entries(M) == LET rr == RowsOf(M) cc == ColsOf(M) IN {<<rr[k], cc[k], M.v[k]>> : k \in 1..M.nnz}
Abs(M) == Mat(M.m, M.n, Entries(M))
\* a stored matrix that represents A: nothing lost, nothing twice
Represents(M, A) == /\ WF(M) /\ M.m = A.m /\ M.n = A.n
                    /\ M.nnz = Cardinality(A.e) /\ Entries(M) = A.e
\* --------------------------------------------------------------- orderings
RowLex(M) == \A k \in 1..M.nnz-1 : M.r[k] < M.r[k+1] \/ (M.r[k] = M.r[k+1] /\ M.c[k] <= M.c[k+1])
ColLex(M) == \A k \in 1..M.nnz-1 : M.c[k] < M.c[k+1] \/ (M.c[k] = M.c[k+1] /\ M.r[k] <= M.r[k+1])
RowSorted(M) == NonDescending(M.r)
ColSorted(M) == NonDescending(M.c)
RowsAscending(M) == LET rr == RowsOf(M) IN \A k \in 1..M.nnz-1 : rr[k] = rr[k+1] => M.c[k] < M.c[k+1]
\* ------------------------------------------------------- operations on [m,n,e]
LowerOnly(A) == \A t \in A.e : t[1] >= t[2]
UpperOnly(A) == \A t \in A.e : t[1] <= t[2]
Expand(A) == IF A.m = A.n /\ LowerOnly(A) /= UpperOnly(A)
             THEN Mat(A.m, A.n, A.e \cup {<<t[2], t[1], t[3]>> : t \in A.e}) ELSE A
Transpose(A) == Mat(A.n, A.m, {<<t[2], t[1], t[3]>> : t \in A.e})
Sub(A, lo, up) == Mat(up[1] - lo[1], up[2] - lo[2],
   {<<t[1] - lo[1], t[2] - lo[2], t[3]>> : t \in {u \in A.e : u[1] >= lo[1] /\ u[1] < up[1] /\ u[2] >= lo[2] /\ u[2] < up[2]}})
\* the rows of the range, without the columns of the range, columns keep their place
SubExcl(A, lo, up) == Mat(up[1] - lo[1], A.n,
   {<<t[1] - lo[1], t[2], t[3]>> : t \in {u \in A.e : u[1] >= lo[1] /\ u[1] < up[1] /\ ~(u[2] >= lo[2] /\ u[2] < up[2])}})
Upper(A) == Mat(A.m, A.n, {t \in A.e : t[2] >= t[1]})
ElemOr0(A, i, j) == IF \E t \in A.e : t[1] = i /\ t[2] = j THEN (CHOOSE t \in A.e : t[1] = i /\ t[2] = j)[3] ELSE 0
Diag(A) == [i \in 1..A.m |-> ElemOr0(A, i-1, i-1)]
TraceOf(A) == SumSeq(Diag(A))
\* row i of the result is row p[i] of the argument (p zero-based values, 1-based sequence)
InvAt(p, k) == (CHOOSE i \in 1..Len(p) : p[i] = k) - 1
PermRows(A, p) == Mat(A.m, A.n, {<<InvAt(p, t[1]), t[2], t[3]>> : t \in A.e})
PermCols(A, p) == Mat(A.m, A.n, {<<t[1], InvAt(p, t[2]), t[3]>> : t \in A.e})
InvPerm(p) == [i \in 1..Len(p) |-> InvAt(p, i-1)]
Adjacency(A) == {<<t[1], t[2]>> : t \in {u \in A.e : u[1] # u[2]}}
\* alpha A V + beta W, V and W sequences of columns of A.n resp. A.m numbers
RowDot(A, i, V) == SumOver({t \in A.e : t[1] = i}, LAMBDA t : t[3] * V[t[2]+1])
Times(A, al, V, be, W) == [k \in 1..Len(V) |-> [i \in 1..A.m |-> al * RowDot(A, i-1, V[k]) + be * W[k][i]]]
\* ------------------------------------------------------------------ Perms
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..n-1
=============================================================================
