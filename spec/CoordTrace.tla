----------------------------- MODULE CoordTrace -----------------------------
EXTENDS Coord, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].in)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "Vertical" /\ Scale /\ E.state = now' /\ E.kept
     \/ E.ev = "Cylindrical" /\ Rotate /\ E.state = now' /\ E.kept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
