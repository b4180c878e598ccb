------------------------------- MODULE Replay -------------------------------
(* Reading recorded traces.  A trace specification of independent calls      *)
(* visits every record once; the roots 1..Stride let TLC's workers share it. *)
(* A user module defines Accept(r): "the recorded call is a step the         *)
(* specification allows" and instantiates Init/Next/Judge/Post.              *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
NRec == Len(Trace)
Stride == IF NRec < 16 THEN NRec ELSE 16
VARIABLE l
Init == l \in 1..Stride
Next == l + Stride <= NRec /\ l' = l + Stride
Spec == Init /\ [][Next]_l
Report(ok) == ok \/ PrintT(<<"REJECT", l>>)
Post == /\ TLCGet("stats").distinct = NRec
        /\ PrintT(<<"ACCEPTED", NRec>>)
=============================================================================
