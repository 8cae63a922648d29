---------------------------- MODULE FastCrossMC ----------------------------
EXTENDS FastCross, Json, CSV, IOUtils
CONSTANTS AttemptChoices, MaxQ, StartUnits, StepUnits
VARIABLE hist
mcvars == <<vars, hist>>
StartC == <<0, StartUnits>>
StepC == <<0, StepUnits>>
MCInit == maxAttempts \in AttemptChoices /\ Init /\ hist = <<>>
Points == IF ph \in {"down", "probe", "refine"} THEN {<<0, i>> : i \in 0..(2 * StartUnits)} ELSE {NoLimb}
MCNext == \/ \E q \in 0..MaxQ : \E y \in Points : Attempt(q, q > 0, y) /\ hist' = Append(hist, q)
          \/ ph = "done" /\ UNCHANGED mcvars
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)
(* behaviours to replay: the refinement points are the golden section's *)
Golden(q) == CASE ph = "down"   -> Plus(lo, <<0, ((hi[2] - lo[2]) * 5) \div 8>>)
               [] ph = "probe"  -> Plus(lo, Minus(hi, x))
               [] ph = "refine" -> LET b == Better(q) IN Plus(b.lo, Minus(b.hi, b.mid))
               [] OTHER         -> NoLimb
GenNext == \E q \in 0..MaxQ : Attempt(q, q > 0, Golden(q)) /\ hist' = Append(hist, q)
GenSpec == MCInit /\ [][GenNext]_mcvars
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([attempts |-> maxAttempts, qs |-> hist, out |-> out])>>, IOEnv.OUT)
=============================================================================
