------------------------------- MODULE BatchMC -------------------------------
EXTENDS Batch, Json, CSV, IOUtils
CONSTANTS MaxN, MaxW, MaxSols
VARIABLE hist
mcvars == <<vars, hist>>
Task == {[sols |-> s, how |-> h, fin |-> f] : s \in 0..MaxSols, h \in Hows, f \in 0..MaxSols}
GoodTask(t) == IF t.how \in {"found", "failedfinal"} THEN t.fin \in 1..t.sols ELSE t.fin = 0 /\ (t.how = "failedleft" => t.sols > 0)
Tasks == {t \in Task : GoodTask(t)}
MCInit == (\E n \in 0..MaxN : \E p \in [1..n -> Tasks], k \in 1..MaxW : InitWith(p, k)) /\ hist = <<>>
MCNext == \/ \E i \in 1..N : Do(i) /\ hist' = Append(hist, i)
          \/ Take /\ hist' = Append(hist, 0)
          \/ Finish /\ UNCHANGED hist
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([plan |-> plan, w |-> w, steps |-> hist])>>, IOEnv.OUT)
=============================================================================
