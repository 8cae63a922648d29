------------------------------ MODULE CriticalMC ------------------------------
EXTENDS Critical, Json, CSV, IOUtils
CONSTANTS MaxN
Vs == {<<1, 4>>, <<1, 1>>, <<8, 1>>}
Speeds == {<<<<1, 2>>, <<2, 1>>>>, <<<<1, 4>>, <<4, 1>>>>, <<<<1, 1>>, <<1, 1>>>>}
Point == {[v |-> v, slow |-> s[1], fast |-> s[2], nan |-> FALSE] : v \in Vs, s \in Speeds}
           \cup {[v |-> <<0, 1>>, slow |-> <<1, 1>>, fast |-> <<1, 1>>, nan |-> TRUE]}
\* a flow may start with unknown points, nothing else is unknown
MCInit == \E n \in 1..MaxN : \E f \in [1..n -> Point] : (\A i \in 2..n : f[i].nan => f[i - 1].nan) /\ InitWith(f)
MCSpec == MCInit /\ [][UNCHANGED vars]_vars
Emit == CSVWrite("%1$s", <<ToJson(flow)>>, IOEnv.OUT)
=============================================================================
