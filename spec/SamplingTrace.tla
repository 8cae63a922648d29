--------------------------- MODULE SamplingTrace ---------------------------
EXTENDS Sampling, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ /\ E.ev = "Begin" /\ UNCHANGED vars      \* how the sampler was set up
        /\ E.walkers /\ E.iterations /\ E.dims /\ E.near
     \/ /\ E.ev = "Propose" /\ Propose(E.kind, E.score)
        /\ E.solved = Solves(E.kind)             \* were the equations solved for it
        /\ (E.solved => E.asked /\ E.others)     \* with these parameters, and all other settings as configured
        /\ E.reply = reply'
        /\ E.nrecs = Len(recs')                  \* recorded at once
     \/ /\ E.ev = "End" /\ Finish
        /\ E.sols = [i \in 1..Len(recs) |-> recs[i].prop]
        /\ E.fin = IF fin' = 0 THEN 0 ELSE recs[fin'].prop
        /\ E.inputs                              \* every record holds the parameters proposed for it
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
