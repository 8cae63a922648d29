----------------------------- MODULE SettingsMC -----------------------------
EXTENDS Settings, Json, CSV, IOUtils
CONSTANTS Mode        \* "single": one setting at a time from a fresh config; "again": one setting through
                      \* a re-solve; "wide": everything varies
VARIABLE hist
mcvars == <<vars, hist>>
Pick(S) == RandomElement(S)
L == Len(hist)
None(S) == [f \in {} |-> 0]
One(f, S) == {None(0)} \cup {(f :> x) : x \in S}
Few(f) == IF Cardinality(Texts(f)) > 4 THEN {CHOOSE x \in Texts(f) : TRUE, CHOOSE x \in Texts(f) : x # (CHOOSE y \in Texts(f) : TRUE)} ELSE Texts(f)
FewN(f) == {0, 1, 2, ZERO} \cap Numbers(f)
MCInit == Init /\ hist = <<>>
H(op, r) == hist' = Append(hist, r @@ [op |-> op, cli |-> L])
\* (the numbers are bound by quantifiers: a definition would be evaluated anew wherever it is used)
SubMap(S, Dom(_)) == CHOOSE m \in {[f \in T |-> Pick(Dom(f))] : T \in {{f \in S : Pick(1..D) = 1} : D \in {Pick({1, 2, 4, 12, 100})}}} : TRUE
Single ==
  /\ L = 0
  /\ \E f \in ConfFields : \E c \in One(f, Texts(f)), o \in One(f, Few(f)) :
        /\ Solve(c, o, <<>>, 0)
        /\ H("solve", [cfg |-> c, ov |-> o, drifts |-> <<>>, fin |-> 0])
AgainOne ==
  \/ /\ L = 0
     /\ \E f \in InpFields : \E c \in One(f, {CHOOSE x \in Texts(f) : x # DefaultText(f)}), d \in One(f, FewN(f)) :
        /\ Solve(c, None(0), <<d>>, 0)
        /\ H("solve", [cfg |-> c, ov |-> None(0), drifts |-> <<d>>, fin |-> 0, f |-> f])
  \/ /\ L = 1
     /\ LET f == hist[1].f IN \E o \in One(f, Few(f)) \cup {(f :> runs[1].conf[f])} :
        /\ Resolve(1, "0", o, <<>>, 0)
        /\ H("resolve", [i |-> 1, s |-> "0", ov |-> o, drifts |-> <<>>, fin |-> 0])
Wide ==
  \E n \in {Pick({1, 1, 2, 3})} :
  \E drifts \in {[k \in 1..n |-> SubMap(InpFields, Numbers)]}, fin \in {Pick(0..n)}, c \in {SubMap(ConfFields, Texts)}, o \in {SubMap(ConfFields, Texts)} :
     \/ (L = 0 \/ Pick(1..4) = 1) /\ Solve(c, o, drifts, fin) /\ H("solve", [cfg |-> c, ov |-> o, drifts |-> drifts, fin |-> fin])
     \/ Pick(1..6) = 1 /\ Refuse /\ H("refuse", [cfg |-> c, ov |-> o])
     \/ L > 0 /\ Len(runs) > 0 /\ \E i \in {Pick(1..Len(runs))} : \E s \in {Pick(Selectors(runs[i]))} :
          Resolve(i, s, o, drifts, fin) /\ H("resolve", [i |-> i, s |-> s, ov |-> o, drifts |-> drifts, fin |-> fin])
MCNext == CASE Mode = "single" -> Single [] Mode = "again" -> AgainOne [] OTHER -> L < 4 /\ Wide
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == (L = (CASE Mode = "single" -> 1 [] Mode = "again" -> 2 [] OTHER -> 4)) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
