------------------------------- MODULE LogsTrace -------------------------------
EXTENDS Logs, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == tid \in 1..Len(Traces) /\ l = 1 /\ Init
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "Begin" /\ Begin(E.conf)
     \/ E.ev = "Record" /\ Record(E.level)
     \* after the command: all there is on standard error and in the log file, from all the sessions so far
     \/ E.ev = "End" /\ End /\ E.err = err /\ E.file = file
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
