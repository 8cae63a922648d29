---------------------------- MODULE FormatTrace ----------------------------
EXTENDS Format, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "write" /\ Write(E.f)
     \* everything read back, in memory, equals what the file says
     \/ E.ev = "read" /\ Read(E.c) /\ E.m.run = mem'.run /\ E.m.conf = mem'.conf /\ E.m.sols = mem'.sols /\ E.m.final = mem'.final
     \/ E.ev = "rewrite" /\ Rewrite
     \/ E.ev = "use" /\ Use /\ E.m = ToSolver(mem.conf)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
