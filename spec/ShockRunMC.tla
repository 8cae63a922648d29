----------------------------- MODULE ShockRunMC -----------------------------
EXTENDS ShockRun, Json, CSV, IOUtils
CONSTANTS MaxN, MaxW, Runs      \* Runs: with outcomes and schedules, or only the profiles
VARIABLE hist
mcvars == <<vars, hist>>
Sides(n) == {s \in [1..n -> 1..3] : \A i \in 1..n-1 : s[i] <= s[i + 1] /\ (s[i] = 2 => s[i + 1] = 3)}
Lv == IF Runs THEN {3, 4, 7} ELSE Levels
MCInit == /\ \E n \in 1..MaxN : \E p \in [1..n -> Lv], s \in (IF Runs THEN {[i \in 1..n |-> 3]} ELSE Sides(n)),
                m \in (IF Runs THEN {TRUE} ELSE BOOLEAN), k \in 1..MaxW :
                \E o \in (IF Runs THEN [1..n -> Outcomes] ELSE {[i \in 1..n |-> "ok"]}) :
                   /\ InitWith(p, s, m, o, k) /\ Numbers # {}
                   /\ Runs => (p[1] = 7 /\ Doubtful = {} /\ \A i \in 1..n : i \in Candidates \/ o[i] = "ok")
          /\ hist = <<>>
MCNext == (\E i \in 1..N : Try(i) /\ hist' = Append(hist, i)) \/ (Finish /\ UNCHANGED hist)
MCSpec == MCInit /\ [][MCNext]_mcvars
EmitProfile == (hist = <<>> /\ ph = "run") => CSVWrite("%1$s", <<ToJson([prof |-> prof, side |-> side, postmax |-> postmax])>>, IOEnv.OUT)
Emit == ph = "done" => CSVWrite("%1$s", <<ToJson([prof |-> prof, side |-> side, postmax |-> postmax, outcome |-> outcome,
                                                   w |-> w, steps |-> hist])>>, IOEnv.OUT)
=============================================================================
