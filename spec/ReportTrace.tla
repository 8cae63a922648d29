------------------------------ MODULE ReportTrace ------------------------------
EXTENDS Report, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].run, {"csv1", "csv2", "cfg1"})
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "Info" /\ Info(E.group, E.sel, E.shown)
     \/ E.ev = "Csv" /\ Csv(E.file, E.sel, E.header) /\ E.written = outs'[E.file]
     \/ E.ev = "Cfg" /\ Cfg(E.file, E.sel) /\ E.written = outs'[E.file]
     \/ E.ev = "Failed" /\ (Failed(E.sel) \/ (Chosen(E.sel) = S!Nothing /\ UNCHANGED vars))
     \/ E.ev = "Untouched" /\ E.resultfile /\ E.outputs = outs /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
