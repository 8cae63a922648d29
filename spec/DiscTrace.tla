------------------------------ MODULE DiscTrace ------------------------------
EXTENDS Disc, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].cf)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.ev = "Midplane" -> Midplane(E.pt, E.a, E.k, E.g)
       [] E.ev = "Impossible" -> Impossible
       [] E.ev = "Expand" -> Expand(E.c)
       [] E.ev = "Evaluate" -> Evaluate(E.pt, E.taylor, E.given, E.vt, E.d, E.noted, E.kept)
       [] E.ev = "Tabulate" -> Tabulate(E.rows, E.d)
       [] E.ev = "Refuse" -> Refuse(E.pt, E.code, E.noted, E.why, E.changed)
       [] E.ev = "Jacobian" -> Jacobian(E.pt, E.eps, E.up, E.down, E.j)
       [] E.ev = "Electric" -> Electric(E.pt, E.j, E.e)
       [] E.ev = "NotWithE" -> NotWithE
       [] E.ev = "Residuals" -> Residuals(E.pt, E.d, E.res)
       [] E.ev = "AlmostKepler" -> AlmostKepler(E.pt, E.d, E.nk, E.res)
       [] E.ev = "Parts" -> Parts(E.pt, E.parts, E.whole)
       [] E.ev = "Compared" -> Compared(E.own, E.near, E.values, E.shown)
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
