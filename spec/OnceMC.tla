------------------------------- MODULE OnceMC -------------------------------
EXTENDS Once, Json, CSV, IOUtils, TLC
CONSTANTS N, M
VARIABLE hist
mcvars == <<vars, hist>>
Configs == {c \in [way : Ways, useE : BOOLEAN, file : BOOLEAN, keep : BOOLEAN, roots : BOOLEAN, sized : BOOLEAN, before : 0..2, final : BOOLEAN, eta : BOOLEAN, n : {N}] :
              /\ c.before > 0 => c.way = "single" /\ ~c.file
              /\ ~c.final => c.way = "single" /\ ~c.file
              /\ c.roots => c.way # "single" /\ ~c.file
              /\ c.sized => c.roots}
MCInit == (\E c \in Configs : InitWith(c)) /\ hist = <<>>
H(x) == hist' = Append(hist, x)
MCNext ==
  \/ /\ cfg.way # "single"
     /\ \E r \in 1..N : \E m \in 0..M : \E bad \in SUBSET (1..m) : \E how \in Outcomes :
          /\ (how = "success") = (r = N) /\ (how = "root" => cfg.roots)
          /\ how = "tooclose" => r = 1 /\ m = 0
          /\ Integrate([i \in 1..N |-> i - 1], 0, r, m, bad, how)
          /\ H([r |-> r, m |-> m, bad |-> [i \in 1..m |-> i \in bad], how |-> how])
  \/ \E how \in Outcomes : Attempt(how) /\ H([r |-> 0, m |-> 0, bad |-> <<>>, how |-> how])
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == ph \in {"ended", "refused"} => CSVWrite("%1$s", <<ToJson([cfg |-> cfg, step |-> hist])>>, IOEnv.OUT)
=============================================================================
