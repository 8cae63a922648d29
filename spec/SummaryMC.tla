------------------------------ MODULE SummaryMC ------------------------------
EXTENDS Summary, Json, CSV, IOUtils
CONSTANTS MaxFiles
File(m) == {[name |-> m, n |-> -1, fin |-> FALSE, bad |-> <<>>]} \cup
           [name : {m}, n : {0, 1, 2}, fin : BOOLEAN, bad : {<<>>, <<0>>, <<Final>>}]
Sane(f) == \A i \in 1..Len(f.bad) : (f.bad[i] = Final => f.fin) /\ (f.bad[i] # Final => f.n > f.bad[i])
MCInit == \E m \in 1..MaxFiles : \E f \in [1..m -> UNION {File(x) : x \in 1..MaxFiles}] :
             (\A i \in 1..m : Sane(f[i]) /\ \A j \in 1..i : f[i].name = f[j].name => f[i] = f[j]) /\ InitWith(f)
MCNext == \E i \in 1..Len(files) : \E k \in {0, 1, Final} : Row(files[i].name, k)
MCSpec == MCInit /\ [][MCNext]_vars
Emit == (rows = <<>>) => CSVWrite("%1$s", <<ToJson(files)>>, IOEnv.OUT)
=============================================================================
