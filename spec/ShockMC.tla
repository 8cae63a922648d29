------------------------------- MODULE ShockMC -------------------------------
EXTENDS Shock, Json, CSV, IOUtils
CONSTANTS MaxV, MaxRho, MaxN
VARIABLE hist
mcvars == <<vars, hist>>
Fracs(m) == {Norm(a, b) : a \in 1..m, b \in 1..m}
MCInit == /\ \E v \in Fracs(MaxV), s \in {1, -1}, rho \in Fracs(MaxRho), n \in 1..MaxN : \E j \in 1..n :
                InitWith([v |-> Norm(s * v[1], v[2]), rho |-> rho, rest |-> 1, j |-> j, n |-> n])
          /\ hist = <<>>
MCNext == (Jump /\ hist' = Append(hist, "Jump")) \/ (Integrate /\ hist' = Append(hist, "Integrate"))
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == ~ENABLED MCNext => CSVWrite("%1$s", <<ToJson([pre |-> pre, steps |-> hist])>>, IOEnv.OUT)
=============================================================================
