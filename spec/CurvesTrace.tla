----------------------------- MODULE CurvesTrace -----------------------------
EXTENDS Curves, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].sols)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.ev = "Draw" -> Draw(E.q, E.panels, {E.curves[i] : i \in 1..Len(E.curves)})
       [] E.ev = "Refuse" -> Refuse(E.q)
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
