--------------------------- MODULE SonicRootTrace ---------------------------
EXTENDS SonicRoot, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ /\ E.ev = "Mid" /\ Midplane(E.s)
        /\ E.input                          \* solved with the run's input and its initial conditions, up to the target velocity
     \/ /\ E.ev = "Trial" /\ Trial(E.s, E.m)
        /\ E.start                          \* from the guessed sonic point, back to where the midplane solution ended
        /\ E.reply = reply' /\ E.nrecs = Len(recs')
     \/ /\ E.ev = "BadTrial" /\ BadTrial
        /\ E.reply = reply' /\ E.nrecs = Len(recs')
     \/ /\ E.ev = "End" /\ Finish(E.converged)
        /\ E.ok = ok' /\ E.fin = fin' /\ E.recs = recs
        /\ E.same                           \* every record holds the run's input and the midplane initial conditions
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
