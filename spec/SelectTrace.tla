----------------------------- MODULE SelectTrace -----------------------------
EXTENDS Select, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].runs)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "One" /\ One(E.run, E.sel, E.res)
     \/ E.ev = "Many" /\ Many(E.pairs, E.res)
     \/ E.ev = "All" /\ All(E.run, E.res)
     \/ E.ev = "Some" /\ Some(E.run, E.want, E.res)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
