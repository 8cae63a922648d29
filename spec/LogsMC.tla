-------------------------------- MODULE LogsMC --------------------------------
EXTENDS Logs, Json, CSV, IOUtils, TLC
CONSTANTS MaxSessions, MaxRecords, Gen
VARIABLES hist, inside
mcvars == <<vars, hist, inside>>
Confs == {[how |-> h, level |-> v, file |-> f, flevel |-> w] : h \in {"default", "quiet", "verbose", "level"}, v \in 0..6,
          f \in BOOLEAN, w \in 0..6}
Good(c) == /\ (c.how = "level") = (c.level > 0) /\ (~c.file => c.flevel = 0)
GoodConfs == {c \in Confs : Good(c)}
Begun == Len(SelectSeq(hist, LAMBDA s : s.do = "Begin"))
Some(S) == IF Gen THEN {RandomElement(S)} ELSE S
MCInit == Init /\ hist = <<>> /\ inside = 0
MCNext == \/ /\ Begun < MaxSessions
             /\ \E c \in Some(GoodConfs) : Begin(c) /\ hist' = Append(hist, [do |-> "Begin", conf |-> c, level |-> 0]) /\ inside' = 0
          \/ /\ inside < MaxRecords /\ inside' = inside + 1
             /\ \E v \in Some(1..6) : Record(v) /\ hist' = Append(hist, [do |-> "Record", conf |-> Nothing, level |-> v])
          \/ End /\ hist' = Append(hist, [do |-> "End", conf |-> Nothing, level |-> 0]) /\ UNCHANGED inside
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == (ph = "out" /\ Begun = MaxSessions) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
