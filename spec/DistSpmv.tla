------------------------------ MODULE DistSpmv ------------------------------
(* The distributed sparse matrix-vector product.  Rows are shared out over   *)
(* the processes; a process needs the vector elements named by the columns   *)
(* of its off-process entries.  Set-up: the needed counts are all-gathered,  *)
(* index lists are exchanged; each product then exchanges the values.  All   *)
(* messages of a pair share one tag, so they are matched in sending order;   *)
(* processes are otherwise unsynchronised and may run ahead into the next    *)
(* product.  Checked for every row partition and off-process pattern of a    *)
(* small matrix: every product gets exactly the current values, nobody       *)
(* blocks for ever and no message is left over.                              *)
EXTENDS Util
CONSTANTS P, NRows, Products
Procs == 0..P-1
Rows == 0..NRows-1
VARIABLES start,      \* row partition: process p owns rows start[p]..start[p+1]-1
          pat,        \* pat[r] = set of columns with entries in row r
          pc, k,      \* control state and product counter per process
          chan,       \* chan[<<p,q>>]: messages in flight
          sendTo,     \* index lists p has learned it must send to q
          got         \* values received for the current product
vars == <<start, pat, pc, k, chan, sendTo, got>>
Own(p) == start[p]..start[p+1]-1
Owner(r) == CHOOSE p \in Procs : r \in Own(p)
Need(p, q) == IF p = q THEN {} ELSE {c \in UNION {pat[r] : r \in Own(p)} : c \in Own(q)}
Partitions == {s \in [0..P -> 0..NRows] : s[0] = 0 /\ s[P] = NRows /\ \A p \in Procs : s[p] <= s[p+1]}
Init == /\ start \in Partitions
        /\ pat \in [Rows -> SUBSET Rows]
        /\ pc = [p \in Procs |-> "gather"] /\ k = [p \in Procs |-> 0]
        /\ chan = [pq \in Procs \X Procs |-> <<>>]
        /\ sendTo = [pq \in Procs \X Procs |-> {}]
        /\ got = [p \in Procs |-> {}]
\* the collective: everybody learns every count
Gather == /\ \A p \in Procs : pc[p] = "gather"
          /\ pc' = [p \in Procs |-> "sendidx"]
          /\ UNCHANGED <<start, pat, k, chan, sendTo, got>>
SendIdx(p) == /\ pc[p] = "sendidx"
              /\ chan' = [pq \in Procs \X Procs |-> IF pq[1] = p /\ Need(p, pq[2]) # {}
                             THEN Append(chan[pq], [kind |-> "idx", prod |-> 0, body |-> Need(p, pq[2])]) ELSE chan[pq]]
              /\ pc' = [pc EXCEPT ![p] = "recvidx"]
              /\ UNCHANGED <<start, pat, k, sendTo, got>>
RecvIdx(p) == /\ pc[p] = "recvidx"
              /\ \A q \in Procs : Need(q, p) # {} => chan[<<q, p>>] # <<>>
              /\ sendTo' = [pq \in Procs \X Procs |-> IF pq[1] = p THEN IF Need(pq[2], p) # {} THEN Head(chan[<<pq[2], p>>]).body ELSE {} ELSE sendTo[pq]]
              /\ chan' = [pq \in Procs \X Procs |-> IF pq[2] = p /\ Need(pq[1], p) # {} THEN Tail(chan[pq]) ELSE chan[pq]]
              /\ pc' = [pc EXCEPT ![p] = "send"]
              /\ UNCHANGED <<start, pat, k, got>>
SendVal(p) == /\ pc[p] = "send" /\ k[p] < Products
              /\ chan' = [pq \in Procs \X Procs |-> IF pq[1] = p /\ sendTo[pq] # {}
                             THEN Append(chan[pq], [kind |-> "val", prod |-> k[p], body |-> sendTo[pq]]) ELSE chan[pq]]
              /\ pc' = [pc EXCEPT ![p] = "recv"]
              /\ UNCHANGED <<start, pat, k, sendTo, got>>
RecvVal(p) == /\ pc[p] = "recv"
              /\ \A q \in Procs : Need(p, q) # {} => chan[<<q, p>>] # <<>>
              /\ got' = [got EXCEPT ![p] = UNION {{<<Head(chan[<<q, p>>]).kind, Head(chan[<<q, p>>]).prod, c>> : c \in Head(chan[<<q, p>>]).body} : q \in {x \in Procs : Need(p, x) # {}}}]
              /\ chan' = [pq \in Procs \X Procs |-> IF pq[2] = p /\ Need(p, pq[1]) # {} THEN Tail(chan[pq]) ELSE chan[pq]]
              /\ pc' = [pc EXCEPT ![p] = "use"]
              /\ UNCHANGED <<start, pat, k, sendTo>>
Use(p) == /\ pc[p] = "use"
          /\ k' = [k EXCEPT ![p] = @ + 1]
          /\ got' = [got EXCEPT ![p] = {}]
          /\ pc' = [pc EXCEPT ![p] = IF k[p] + 1 = Products THEN "done" ELSE "send"]
          /\ UNCHANGED <<start, pat, chan, sendTo>>
Done == (\A p \in Procs : pc[p] = "done") /\ UNCHANGED vars
Next == Gather \/ (\E p \in Procs : SendIdx(p) \/ RecvIdx(p) \/ SendVal(p) \/ RecvVal(p) \/ Use(p)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* in state "use" a process holds exactly the values its rows need, of its own product
ValuesCurrent == \A p \in Procs : pc[p] = "use" =>
   got[p] = {<<"val", k[p], c>> : c \in UNION {pat[r] : r \in Own(p)} \ Own(p)}
NothingLeft == (\A p \in Procs : pc[p] = "done") => \A pq \in Procs \X Procs : chan[pq] = <<>>
IdxFirst == \A pq \in Procs \X Procs : \A i \in 1..Len(chan[pq]) : chan[pq][i].kind = "idx" => i = 1 /\ sendTo[<<pq[2], pq[1]>>] = {}
Finishes == <>(\A p \in Procs : pc[p] = "done")
=============================================================================
