--------------------------- MODULE FastCrossTrace ---------------------------
EXTENDS FastCross, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
          toks     \* the solutions found so far, in order
tvars == <<vars, tid, l, toks>>
StartC == <<104857600, 0>>      \* 100, in units of 2^-46
StepC == <<1048576, 0>>         \* 1
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2 /\ toks = <<>>
             /\ maxAttempts = Traces[tid][1].attempts /\ Init
Ended(e) ==
  /\ ph = "done" /\ UNCHANGED vars
  /\ e.ok = (toks # <<>>)
  /\ e.fin = (IF toks = <<>> THEN 0 ELSE toks[Len(toks)])
  /\ e.sols = toks
(* one attempt: e.x is the speed it was made at, e.next the speed of the following attempt (x again if there is none) *)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ /\ E.ev = "Attempt"
        /\ E.x = x
        /\ E.cont        \* all other settings are those of the last solution found (or of the failed attempt), over the configured range
        /\ E.final       \* the long final integration is of what the inner search found
        /\ toks' = toks \o E.toks
        /\ Attempt(E.q, E.toks # <<>>, E.next)
     \/ E.ev = "End" /\ Ended(E) /\ UNCHANGED toks
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
