---------------------------- MODULE SamplingMC ----------------------------
EXTENDS Sampling, Json, CSV, IOUtils
CONSTANTS MaxN, MinN, MaxScore
VARIABLE hist
mcvars == <<vars, hist>>
MCInit == Init /\ hist = <<>>
MCNext == \/ n < MaxN /\ \E k \in Kinds : \E s \in (IF k = "good" THEN 1..MaxScore ELSE {0}) :
               Propose(k, s) /\ hist' = Append(hist, [kind |-> k, score |-> s])
          \/ n >= MinN /\ Finish /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == fin # -1 => CSVWrite("%1$s", <<ToJson([props |-> hist])>>, IOEnv.OUT)
=============================================================================
