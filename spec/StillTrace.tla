------------------------------ MODULE StillTrace ------------------------------
EXTENDS Still, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<svars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ StillInit(Traces[tid][1].which, Traces[tid][1].cf)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.ev = "Midplane" -> StillMidplane(E.pt, E.a, E.k, E.g)
       [] E.ev = "Impossible" -> StillImpossible
       [] E.ev = "Evaluate" -> StillEvaluate(E.pt, E.now, E.velocities, E.d, E.noted, E.kept)
       [] E.ev = "Refuse" -> StillRefuse(E.pt, E.code, E.noted, E.why, E.changed)
       [] E.ev = "Rows" -> Rows(E.pts, E.found)
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
