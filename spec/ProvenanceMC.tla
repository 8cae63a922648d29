---------------------------- MODULE ProvenanceMC ----------------------------
EXTENDS Provenance, Json, CSV, IOUtils
CONSTANTS Inputs, MaxSolved, Outcomes, MaxLen, MinLen
MCNext == \/ \E i \in 1..Inputs : Choose(i)
          \/ Len(solved) < MaxSolved /\ Solve
          \/ \E k \in 1..MaxSolved : Len(recs) < MaxSolved /\ Record(k)
MCSpec == Init /\ [][MCNext]_vars
(* scripts: the outcomes of successive solves, whatever the search then does with them *)
VARIABLE hist
GenInit == Init /\ hist = <<>>
GenNext == Len(hist) < MaxLen /\ \E o \in Outcomes : hist' = Append(hist, o) /\ UNCHANGED vars
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
MCInit == Init /\ hist = <<>>
MCNextH == MCNext /\ UNCHANGED hist
ExSpec == MCInit /\ [][MCNextH]_<<vars, hist>>
Emit == Len(hist) >= MinLen => CSVWrite("%1$s", <<ToJson([outcomes |-> hist])>>, IOEnv.OUT)
=============================================================================
