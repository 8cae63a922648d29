---------------------------- MODULE CommandTrace ----------------------------
EXTENDS Command, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].ask)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ /\ E.ev = "Searching" /\ Create    \* the solver was called: with the file there, and with what was asked for
        /\ E.new = 1 /\ E.asked
     \/ /\ E.ev = "Ended" /\ (Refuse \/ CannotCreate \/ Search)
        /\ (E.status = 0) = (status' = 0)
        /\ (status' # 0 /\ printed') => E.status = 1
        /\ E.printed = printed' /\ E.new = Cardinality(files' \ {"old"}) /\ E.kept
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
