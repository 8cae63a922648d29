----------------------------- MODULE InternalMC -----------------------------
EXTENDS Internal, Json, CSV, IOUtils
CONSTANTS MaxId, MaxOps, MaxLen
VARIABLE hist
mcvars == <<vars, hist>>
MCInit == Init /\ hist = <<>>
H(op, x, y, z) == hist' = Append(hist, [op |-> op, x |-> x, y |-> y, z |-> z])
Ok == next <= MaxId
MCNext ==
  /\ Len(hist) < MaxOps
  /\ \E n \in Names :
     \/ Fresh(n) /\ H("fresh", n, 0, 0)
     \/ Ok /\ Note(n) /\ H("note", n, 0, 0)
     \/ Ok /\ NoteJac(n) /\ H("jac", n, 0, 0)
     \/ Ok /\ \E a \in Angles, c \in 1..2 : Report(n, a, c) /\ H("report", n, a, c)
     \/ \E a \in Angles : Forget(n, a) /\ H("forget", n, a, 0)
     \/ Finalise(n) /\ H("finalise", n, 0, 0)
     \/ Flip(n) /\ H("flip", n, 0, 0)
     \/ \E a \in Angles : Query(n, a) /\ H("query", n, a, 0)
     \/ \E b, c \in Names : Len(rec[n].rows) + Len(rec[b].rows) <= MaxLen /\ Join(n, b, c) /\ H("join", n, b, c)
View == <<vars, Len(hist)>>
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson([steps |-> hist])>>, IOEnv.OUT)
=============================================================================
