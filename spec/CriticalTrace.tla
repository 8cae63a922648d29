---------------------------- MODULE CriticalTrace ----------------------------
EXTENDS Critical, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].flow)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED <<tid, vars>>
  /\ \/ E.ev = "Angles" /\ \A w \in Waves : IF Reported(w) /\ ~Known(w) THEN TRUE ELSE E.at[w] = Place(w)
     \* the nearest index; a Mach number that only just comes to one may or may not count
     \/ E.ev = "Indices" /\ \A w \in Waves :
            IF Crosses(w) THEN E.at[w] = At(w) \/ (~Exceeds(w) /\ E.at[w] = -1) ELSE E.at[w] = -1
     \/ E.ev = "Class" /\ E.name = Highest
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
