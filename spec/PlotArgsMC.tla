----------------------------- MODULE PlotArgsMC -----------------------------
EXTENDS PlotArgs, Json, CSV, IOUtils
CONSTANTS MaxOps, Pics
VARIABLES hist
Requests == {[ordering |-> o, scale |-> s, off |-> n, given |-> g, kep |-> k] :
               o \in {"B_phi_prime", "E_r", "B_phi_prime_vert", "E_r_vert"}, s \in {"linear", "log"}, n \in BOOLEAN, g \in {NoOffset, 0, 7}, k \in {4}}
Few == {q \in Requests : q.ordering \in {"B_phi_prime", "B_phi_prime_vert"} /\ (q.scale = "log" => q.given = NoOffset) /\ q.given # 0}
Spoiled == [i \in 1..8 |-> [name |-> "?", scale |-> "?", offset |-> 99, legend |-> FALSE, extras |-> 1]]
MCInit == hist = <<>> /\ InitWith([p \in 1..Pics |-> p])
MCNext == /\ Len(hist) < MaxOps
          /\ \/ \E q \in (IF hist = <<>> THEN Requests ELSE Few) : Ask(q, Answer(q)) /\ hist' = Append(hist, [ev |-> "Ask", q |-> q])
             \/ \E i \in 1..Len(held) : Spoil(i, Spoiled) /\ held[i] # Spoiled /\ hist' = Append(hist, [ev |-> "Spoil", i |-> i])
MCDraw == /\ Len(hist) < MaxOps
          /\ \E p \in 1..Pics : Draw(p, fresh[p]) /\ hist' = Append(hist, [ev |-> "Draw", p |-> p])
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
MCSpecDraw == MCInit /\ [][MCDraw]_<<vars, hist>>
\* whatever was made of lists handed out earlier
Emit == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
