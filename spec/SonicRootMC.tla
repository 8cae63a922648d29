---------------------------- MODULE SonicRootMC ----------------------------
EXTENDS SonicRoot, Json, CSV, IOUtils
CONSTANTS MaxTrials, MinTrials, MaxRows
VARIABLE hist, n
mcvars == <<vars, hist, n>>
Solns(base) == {[rows |-> [i \in 1..k |-> base + i], flag |-> f, int |-> j > 0, irows |-> [i \in 1..j |-> base + i]] :
                k \in {2, MaxRows}, f \in {-1, 0, 2}, j \in {0, 2}}
MCInit == Init /\ hist = <<>> /\ n = 0
MCNext == \/ \E s \in Solns(0) : Midplane(s) /\ hist' = <<[k |-> "mid", s |-> s, m |-> FALSE]>> /\ UNCHANGED n
          \/ /\ n < MaxTrials /\ n' = n + 1
             /\ \/ \E s \in Solns(100 * (n + 1)) : \E m \in BOOLEAN :
                     Trial(s, m) /\ hist' = Append(hist, [k |-> "trial", s |-> s, m |-> m])
                \/ \E k \in {"nosolution", "badguess"} :
                     BadTrial /\ hist' = Append(hist, [k |-> k, s |-> NoSoln, m |-> FALSE])
          \/ n >= MinTrials /\ \E c \in BOOLEAN : Finish(c) /\ hist' = Append(hist, [k |-> "end", s |-> NoSoln, m |-> c])
                                  /\ UNCHANGED n
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([steps |-> hist])>>, IOEnv.OUT)
=============================================================================
