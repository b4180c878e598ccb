---------------------------- MODULE FilesDesign ----------------------------
(* Writers and readers of files at the level of the calls they make: open    *)
(* (truncating), append lines to a stream buffer, close (flushing).  The     *)
(* library's calls are atomic to the caller, so between calls no stream may  *)
(* stay open with unflushed lines and no earlier content may survive.        *)
(* Checked: a read returns exactly the lines of the last write of its path,  *)
(* and integral tables survive whatever representative and order of lines    *)
(* is written.                                                               *)
EXTENDS Files
CONSTANTS NPath, NVal
VARIABLES disk, stream, last, got
vars == <<disk, stream, last, got>>
Path == 1..NPath
\* one orbital: the two-body class, the one-body class, an orbital energy, core
Tables == {LinesOf(1, <<t>>, <<v>>, c) : t \in 0..NVal-1, v \in 0..NVal-1, c \in 0..NVal-1}
Closed == [p |-> 0, todo |-> {}, buf |-> {}]
Init == /\ disk = [p \in Path |-> {}] /\ last = [p \in Path |-> {}]
        /\ stream = Closed /\ got = [p |-> 0, L |-> {}]
Open(p) == /\ stream.p = 0
           /\ \E L \in Tables : /\ stream' = [p |-> p, todo |-> L, buf |-> {}]
                                /\ disk' = [disk EXCEPT ![p] = {}]
                                /\ last' = [last EXCEPT ![p] = L]
           /\ got' = [p |-> 0, L |-> {}]
Line == /\ stream.p # 0
        /\ \E x \in stream.todo : stream' = [stream EXCEPT !.todo = @ \ {x}, !.buf = @ \cup {x}]
        /\ UNCHANGED <<disk, last, got>>
Flush == /\ stream.p # 0 /\ stream.buf # {}
         /\ disk' = [disk EXCEPT ![stream.p] = @ \cup stream.buf]
         /\ stream' = [stream EXCEPT !.buf = {}]
         /\ UNCHANGED <<last, got>>
Close == /\ stream.p # 0 /\ stream.todo = {}
         /\ disk' = [disk EXCEPT ![stream.p] = @ \cup stream.buf]
         /\ stream' = Closed /\ UNCHANGED <<last, got>>
Read(p) == /\ stream.p = 0 /\ got' = [p |-> p, L |-> disk[p]] /\ UNCHANGED <<disk, stream, last>>
Next == Line \/ Flush \/ Close \/ \E p \in Path : Open(p) \/ Read(p)
Spec == Init /\ [][Next]_vars
ReadLast == got.p # 0 => got.L = last[got.p]
Quiet == stream.p = 0 => disk = last
Meaning == \A p \in Path : stream.p = 0 /\ disk[p] # {} =>
   LET L == disk[p] IN NOrb(L) = 1 /\ Consistent(L) /\ LinesOf(1, ReadT(L, 1, -1), ReadV(L, 1, -1), Core(L)) = L
\* every representative of a two-orbital table means the same
Reps(x) == {<<x[1],x[2],x[3],x[4],x[5]>>, <<x[2],x[1],x[3],x[4],x[5]>>, <<x[1],x[2],x[4],x[3],x[5]>>, <<x[2],x[1],x[4],x[3],x[5]>>,
            <<x[3],x[4],x[1],x[2],x[5]>>, <<x[3],x[4],x[2],x[1],x[5]>>, <<x[4],x[3],x[1],x[2],x[5]>>, <<x[4],x[3],x[2],x[1],x[5]>>}
Classes == {<<1,1,1,1,5>>, <<1,1,1,2,6>>, <<1,1,2,2,7>>, <<1,2,1,2,8>>, <<1,2,2,2,9>>, <<2,2,2,2,10>>}
Full == UNION {Reps(x) : x \in Classes}
ASSUME Cardinality(Full) = 16
ASSUME \A f \in [Classes -> 1..8] : LET L == {SetToSeq(Reps(x))[((f[x]-1) % Cardinality(Reps(x))) + 1] : x \in Classes}
                                    IN (\A x \in Classes : f[x] <= Cardinality(Reps(x))) => ReadV(L, 2, -1) = ReadV(Full, 2, -1)
=============================================================================
