----------------------------- MODULE ExtremesMC -----------------------------
EXTENDS Extremes, Json, CSV, IOUtils, TLC
CONSTANTS N
VARIABLE hist
mcvars == <<vars, hist>>
\* the shape of a profile: what is known of a wave (ranks), how the flow goes
Ranks(n) == [1..n -> 0..2]
Grids == {g \in [1..N -> {0, 40, 160, 161, 400}] : \A i \in 2..N : g[i - 1] < g[i]}
MCInit == hist = <<>> /\ \E g \in Grids, w \in Ranks(N), v \in [1..N -> {-3, 10, 11}] :
  InitWith([grid |-> g, vt |-> v, rho |-> [i \in 1..N |-> i], slow |-> w, alfven |-> w, fast |-> w, vz |-> [i \in 1..N |-> w[i] + 1], misfit |-> [k \in 1..7 |-> [i \in 1..N |-> w[i] + 1]]])
MCNext == Say(Report) /\ hist' = <<soln>>
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == hist # <<>> => CSVWrite("%1$s", <<ToJson([grid |-> soln.grid, vt |-> soln.vt, known |-> [i \in 1..N |-> soln.slow[i] # 0], rank |-> soln.slow])>>, IOEnv.OUT)
=============================================================================
