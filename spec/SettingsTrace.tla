---------------------------- MODULE SettingsTrace ----------------------------
EXTENDS Settings, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1
\* the solver saw this input, and the file left behind says this
Seen(r) == /\ E.used = r.used /\ E.conf = r.conf /\ E.base = r.base
           /\ E.sols = r.sols /\ E.er = r.used["use_E_r"]
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "solve" /\ Solve(E.cfg, E.ov, E.drifts, E.fin) /\ Seen(runs'[Len(runs')])
     \/ E.ev = "resolve" /\ Resolve(E.i, E.s, E.ov, E.drifts, E.fin) /\ Seen(runs'[Len(runs')]) /\ E.unchanged
     \/ E.ev = "refuse" /\ Refuse
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
