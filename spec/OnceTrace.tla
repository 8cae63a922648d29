------------------------------ MODULE OnceTrace ------------------------------
EXTENDS Once, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].cfg)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.ev = "Integrate" -> E.opts /\ E.root = cfg.roots
                               \* the velocities are found, not integrated, with E_r; the diffusivities follow the disc if asked to
                               /\ (\A i \in 1..Len(E.modes) : E.modes[i] = cfg.useE) /\ (\A i \in 1..Len(E.etas) : E.etas[i] = cfg.eta)
                               /\ Integrate(E.want, E.start, E.r, E.m, {E.bad[i] : i \in 1..Len(E.bad)}, E.how)
       [] E.ev = "Attempt" -> E.input /\ E.keep = cfg.keep /\ Attempt(E.how)
       [] E.ev = "Recorded" -> Recorded(E.names, E.olds, E.final, E.success, E.sol)
       [] E.ev = "Refused" -> Refused(E.names, E.olds, E.final)
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
