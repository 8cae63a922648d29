------------------------------ MODULE ShockTrace ------------------------------
EXTENDS Shock, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].pre)
Now(e) == e.v = post'.v /\ e.rho = post'.rho /\ e.rest = post'.rest
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ /\ E.ev = "Jump" /\ Jump /\ Now(E)
        /\ E.angles = Remaining         \* which angles are left
        /\ E.kept                       \* other initial conditions as before, the data before the shock untouched
     \/ /\ E.ev = "Integrate" /\ Integrate /\ Now(E) /\ E.kept
        /\ E.angles = span'
     \* the equations really solved: starts at the shock with the state after it, and stays on the remaining angles
     \/ /\ E.ev = "Solved" /\ span # <<>> /\ UNCHANGED vars
        /\ Now(E) /\ E.kept
        /\ Len(E.angles) >= 1 /\ Len(E.angles) <= Len(span) /\ E.angles = SubSeq(span, 1, Len(E.angles))
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
