------------------------------ MODULE CommandMC ------------------------------
EXTENDS Command, Json, CSV, IOUtils
Asks == {a \in [cmd : {"soln", "resoln"}, override : Overrides, method : {"good", "bad"}, source : Sources, target : Targets,
                how : Hows] :
           /\ (a.cmd = "soln") = (a.source = "config")
           /\ (a.method = "bad" => a.override = "none" /\ a.how = "found")
           /\ (a.override \in {"unknown", "badvalue"} => a.how = "found" /\ a.source \in {"config", "numbered", "final"})
           /\ (a.source \in {"nosuch", "missing"} => a.how = "found")
           /\ (a.target \in {"taken", "nodir"} => a.how = "found")}
MCInit == \E a \in Asks : InitWith(a)
MCSpec == MCInit /\ [][Next]_vars
Emit == ph = "end" => CSVWrite("%1$s", <<ToJson(ask)>>, IOEnv.OUT)
=============================================================================
