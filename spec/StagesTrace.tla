----------------------------- MODULE StagesTrace -----------------------------
EXTENDS Stages, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].cfg)
\* which stop condition an integration carries: 0 none, 1 the caller's, otherwise 1000 times the polar velocity it stops at
Root(p) == CASE p = "expansion" -> 0
             [] p = "main" -> IF cfg.cross # "none" THEN cfg.before ELSE IF cfg.roots THEN 1 ELSE 0
             [] p = "bridge" -> cfg.after
             [] OTHER -> IF cfg.roots THEN 1 ELSE 0
Stop(p) == p \in {"main", "landing", "beyond"} /\ cfg.stop
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ /\ E.ev = "Integrate" /\ E.opts
        /\ E.root = Root(ph) /\ (ph # "expansion" => E.stop = Stop(ph))
        /\ \/ Expansion(E.want, E.start, E.n, E.m, E.how) /\ E.stop
           \/ Main(E.want, E.start, E.n, E.m, E.how)
           \/ Bridge(E.want, E.start, E.n, E.m, E.how)
           \/ Beyond(E.want, E.start, E.n, E.m, E.how, E.land)
     \/ /\ E.ev = "Result" /\ ph = "done" /\ UNCHANGED vars
        /\ E.angs = angs /\ E.rows = rows
        /\ E.store = cfg.store /\ (cfg.store => E.irows = irows)
        /\ E.flag = flag /\ E.roots = (flag = "root") /\ E.same
     \/ /\ E.ev = "Error" /\ (ph = "error" \/ Stuck(E.land)) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
