------------------------------ MODULE StagesMC ------------------------------
EXTENDS Stages, Json, CSV, IOUtils, TLC
CONSTANTS N, MaxEval, Evals
VARIABLE hist
mcvars == <<vars, hist>>
Grid == [i \in 1..N |-> 100 * (i - 1)]
Grid2 == [i \in 1..N-1 |-> 100 * i + 50]
Configs == {c \in [mode : {"none", "modified", "series", "integrated"}, cross : {"none", "jump", "interp", "both"}, store : BOOLEAN,
                   roots : BOOLEAN, grid : {Grid}, grid2 : {Grid2}, tay : {50, 100, 150, 100 * (N - 2) + 50, 100 * (N - 1) + 50}] :
              /\ c.mode \in {"none", "modified"} => c.tay = 50
              /\ c.cross = "both" => ~c.roots}
MCInit == (\E c \in Configs : InitWith(c)) /\ hist = <<>>
H(n, m, how, land) == hist' = Append(hist, [n |-> n, m |-> m, how |-> how, land |-> land])
Hows(want, n) == IF n = Len(want) THEN {"success"} ELSE Flags \ {"success"}
WantNow == CASE ph = "expansion" -> cfg.grid [] ph = "main" -> rest [] ph = "bridge" -> From(rest, last.a) [] OTHER -> <<>>
Lands == {last.a + d : d \in {50, 100, 200, 350}}
MCNext ==
  \/ ph = "expansion" /\ \E n \in 1..Len(cfg.grid) : \E m \in Evals : \E how \in {"tstop", "failed", "success"} :
       /\ how = "tstop" => n < Len(cfg.grid) /\ cfg.grid[n] <= cfg.tay /\ (n < Len(cfg.grid) => cfg.grid[n+1] >= cfg.tay)
       /\ how = "success" => n = Len(cfg.grid)
       /\ Expansion(cfg.grid, 0, n, m, how) /\ H(n, m, how, 0)
  \/ ph = "main" /\ \E n \in 1..Len(rest) : \E m \in Evals : \E how \in Hows(rest, n) :
       /\ how = "root" => cfg.roots \/ cfg.cross # "none"
       /\ Main(rest, StartRow, n, m, how) /\ H(n, m, how, 0)
  \/ ph = "bridge" /\ \E n \in 1..Len(WantNow) : \E m \in Evals : \E how \in Hows(WantNow, n) \ {"tstop"} :
       Bridge(WantNow, last.r, n, m, how) /\ H(n, m, how, 0)
  \/ ph \in {"beyond", "landing"} /\ \E land \in (IF ph = "landing" THEN Lands ELSE {0}) :
       \E n \in 1..Len(BeyondWant(land)) : \E m \in Evals : \E how \in Hows(BeyondWant(land), n) :
         /\ how = "root" => cfg.roots
         /\ Beyond(BeyondWant(land), IF ph = "landing" THEN 3 ELSE last.r, n, m, how, land) /\ H(n, m, how, land)
  \/ \E land \in (IF ph = "landing" THEN Lands ELSE {0}) : GiveUp(land) /\ H(0, 0, "stuck", land)
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == ph \in {"done", "error"} =>
  CSVWrite("%1$s", <<ToJson([cfg |-> cfg, steps |-> hist])>>, IOEnv.OUT)
=============================================================================
