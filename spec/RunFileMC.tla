----------------------------- MODULE RunFileMC -----------------------------
EXTENDS RunFile, Json, CSV, IOUtils
CONSTANTS MaxRuns, MaxLen,
          MinSols   \* generate only runs that record at least so many solutions
Bounded == run.id <= MaxRuns

(* generation of behaviours: a history of the events taken *)
VARIABLE hist
SetToSeqOf(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]
GInit == Init /\ hist = <<[ev |-> "Dir", names |-> SetToSeqOf(DOMAIN dir)]>>
GNext == /\ Len(hist) <= MaxLen
         /\ \E e \in Events :
              /\ (e.ev \in {"Finish", "Abort", "Choose", "ChooseNone"} => Len(run.sols) >= MinSols)
              /\ Step(e)
              /\ hist' = Append(hist, e)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
GBounded == run.id <= MaxRuns
Emit == (Idling /\ run.id >= 1 /\ run.id <= MaxRuns) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
