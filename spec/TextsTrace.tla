----------------------------- MODULE TextsTrace -----------------------------
EXTENDS Texts, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "given" /\ Given(E.m, E.lb)
     \/ E.ev = "tosolver" /\ ToSolver_ /\ E.m = solver'
     \/ E.ev = "totext" /\ ToText /\ E.m = text' /\ E.lb = label
     \/ E.ev = "writecfg" /\ WriteCfg /\ E.m = cfg' /\ E.lb = label
     \/ E.ev = "readcfg" /\ ReadCfg /\ E.m = text' /\ E.lb = label
     \/ E.ev = "writerow" /\ WriteRow /\ E.m = row'
     \/ E.ev = "readrow" /\ ReadRow /\ E.m = text' /\ E.lb = label
     \/ E.ev = "record" /\ Record
     \/ E.ev = "loadsolver" /\ LoadSolver /\ E.m = solver'
     \/ E.ev = "loadtext" /\ LoadText /\ E.m = text' /\ E.lb = label
     \/ E.ev = "dumpcfg" /\ DumpCfg /\ E.m = cfg' /\ E.lb = label
     \/ E.ev = "dumprow" /\ DumpRow /\ E.m = row'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
