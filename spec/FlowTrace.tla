------------------------------- MODULE FlowTrace -------------------------------
EXTENDS Flow, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
Set(s) == {s[i] : i \in 1..Len(s)}
Conf(c) == [grid |-> c.grid, files |-> c.files, taken |-> Set(c.taken), path |-> [w \in {"v", "B"} |-> c.path[w]]]
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Conf(Traces[tid][1].cf))
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.ev = "Stats" -> Stats(E.max) /\ E.points /\ E.about
       [] E.ev = "Open" -> Open(E.w) /\ E.about
       [] E.ev = "First" -> First(E.a, Set(E.c))
       [] E.ev = "Next" -> Next(E.a, Set(E.c), Set(E.d), E.e, E.by, E.full)
       [] E.ev = "Close" -> Close(E.full, E.short)
       [] E.ev = "Highest" -> Highest(E.a)
       [] E.ev = "Refuse" -> Refuse(E.w) /\ E.kept
       [] E.ev = "Finish" -> Finish /\ E.kept
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
===============================================================================
