---------------------------- MODULE StepperMC ----------------------------
EXTENDS Stepper, Json, CSV, IOUtils
CONSTANTS AttemptChoices, SearchChoices, AllowFail, AllowStop, AllowBest, MinLen, InBinade
VARIABLE hist
mcvars == <<vars, hist>>
MCInit == maxAttempts \in AttemptChoices /\ maxSearch \in SearchChoices /\ Init /\ hist = <<>>
Half(a) == a[1] \div 2
(* stay within the binade of ten full steps, where a unit is one unit in the last place *)
Inside(x) == LET lo == Norm(8 * Units(E0)[1], 8 * Units(E0)[2])  hi == Norm(16 * Units(E0)[1], 16 * Units(E0)[2])
             IN  (x[1] > lo[1] \/ (x[1] = lo[1] /\ x[2] > lo[2])) /\ (x[1] < hi[1] \/ (x[1] = hi[1] /\ x[2] < hi[2]))
MCNext == \/ \E t \in Types :
               /\ (t = "best" => AllowBest /\ n + 1 >= MinLen)
               /\ (t = "stop" => AllowStop /\ n + 1 >= MinLen)
               /\ Attempt(t)
               /\ (InBinade /\ E0 > 0 => Inside(g'))
               /\ hist' = Append(hist, t)
          \/ AllowFail /\ n + 1 >= MinLen /\ Fail /\ hist' = Append(hist, "fail")
          \/ ph = "done" /\ UNCHANGED mcvars
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([attempts |-> maxAttempts, search |-> maxSearch, types |-> hist, out |-> out])>>, IOEnv.OUT)
=============================================================================
