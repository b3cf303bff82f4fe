---------------------------- MODULE ClientTrace -----------------------------
(***************************************************************************)
(* Conformance of recorded runs of the real client to Client.tla: each     *)
(* trace is folded through Step, and what it broke is printed.             *)
(* A record is [i, ev]; one state per record.                              *)
(***************************************************************************)
EXTENDS Client, Bypass, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.CLIENT_TRACE)
Property == IOEnv.CLIENT_PROPERTY
Stride == 64

Broken(rec) == IF Property = "C25" THEN BypassBroken(rec.ev)
               ELSE FoldLeft(Step, Start, rec.ev).bad
Mine(bads) == {b \in bads : b[1] = Property}
Report(rec) ==
    LET bads == Broken(rec)
        mine == Mine(bads)
        b == CHOOSE x \in mine : \A y \in mine : x[2] <= y[2]
    IN IF mine # {} THEN PrintT(<<"REJECT", rec.i, b[2], b[3]>>)
       ELSE IF bads # {} THEN PrintT(<<"OTHER", rec.i, {x[1] : x \in bads}>>)
       ELSE TRUE

VARIABLE visited
Init == visited \in 1..(IF Len(Recs) < Stride THEN Len(Recs) ELSE Stride)
Next == visited + Stride <= Len(Recs) /\ visited' = visited + Stride
Spec == Init /\ [][Next]_visited
Conforms == Report(Recs[visited])
=============================================================================
