---------------------------- MODULE ClassifyMC ----------------------------
EXTENDS Classify, Json, CSV, IOUtils
CONSTANTS Values, DValues, MaxV, MaxD, MinV, MinD, Flags, Negs, Internals, ProblemSets
ASSUME ProblemSets \subseteq {"none", "negative", "other", "both"}
ProblemOf(x) == CASE x = "none" -> {} [] x = "negative" -> {"negative"} [] x = "other" -> {"other"} [] OTHER -> {"negative", "other"}
MCInit == /\ flag \in Flags /\ neg \in Negs /\ internal \in Internals
          /\ problem \in (IF internal THEN {ProblemOf(x) : x \in ProblemSets} ELSE {{}})
          /\ v = <<>> /\ dv = <<>> /\ verdict = "-"
MCNext == \/ Len(v) < MaxV /\ dv = <<>> /\ \E x \in Values : AddPoint(x)
          \/ Len(dv) < MaxD /\ Len(v) >= MinV /\ \E x \in DValues : AddDeriv(x - 2)
          \/ Len(v) >= MinV /\ (internal => Len(dv) >= MinD) /\ Judge
MCSpec == MCInit /\ [][MCNext]_vars
Emit == verdict # "-" => CSVWrite("%1$s", <<ToJson([flag |-> flag, neg |-> neg, internal |-> internal, problem |-> problem,
                                                    v |-> v, dv |-> dv, verdict |-> verdict])>>, IOEnv.OUT)
=============================================================================
