--------------------------- MODULE ClassifyTrace ---------------------------
(* One recorded profile per step: what the search did with it. *)
EXTENDS Classify, Json, IOUtils
Cases == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
ToSet(s) == {s[i] : i \in 1..Len(s)}
E == Cases[tid][l]
More == l <= Len(Cases[tid])
TraceInit == Blank /\ tid \in 1..Len(Cases) /\ l = 1
Load(e) == /\ flag' = e.flag /\ v' = e.v /\ neg' = e.neg /\ internal' = e.internal
           /\ problem' = ToSet(e.problem) /\ dv' = e.dv /\ verdict' = "-"
TraceNext == /\ More /\ l' = l + 1 /\ UNCHANGED tid
             /\ \/ E.ev = "Profile" /\ Load(E)
                \/ E.ev = "Judged" /\ Judge /\ E.as = verdict'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
