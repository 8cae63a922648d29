---------------------------- MODULE PlotArgsTrace ----------------------------
EXTENDS PlotArgs, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].fresh)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "Ask" /\ Ask(E.q, E.res)
     \/ E.ev = "Spoil" /\ Spoil(E.i, <<>>)
     \/ E.ev = "Draw" /\ Draw(E.p, E.pic)
     \/ E.ev = "Show" /\ Show(E.q, E.res)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
