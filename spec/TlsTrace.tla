------------------------------ MODULE TlsTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded runs over real sockets to Tls.tla.              *)
(***************************************************************************)
EXTENDS Tls, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.CLIENT_TRACE)
Property == IOEnv.CLIENT_PROPERTY
Stride == 64

Report(rec) ==
    LET bads == FoldLeft(TlsStep, TlsStart, rec.ev).bad
        mine == {b \in bads : b[1] = Property}
        b == CHOOSE x \in mine : \A y \in mine : x[2] <= y[2]
    IN IF mine # {} THEN PrintT(<<"REJECT", rec.i, b[2], b[3]>>)
       ELSE IF bads # {} THEN PrintT(<<"OTHER", rec.i, {x[1] : x \in bads}>>)
       ELSE TRUE

VARIABLE visited
Init == visited \in 1..(IF Len(Recs) < Stride THEN Len(Recs) ELSE Stride)
Next == visited + Stride <= Len(Recs) /\ visited' = visited + Stride
Spec == Init /\ [][Next]_visited
Conforms == Report(Recs[visited])
=============================================================================
