------------------------------- MODULE CoordMC -------------------------------
EXTENDS Coord, Json, CSV, IOUtils
Angles == {<<<<1, 1>>, <<0, 1>>>>, <<<<4, 5>>, <<3, 5>>>>, <<<<3, 5>>, <<4, 5>>>>, <<<<12, 13>>, <<5, 13>>>>}
Places == {[c |-> a[1], s |-> a[2], q |-> q] : a \in Angles, q \in {<<1, 1>>, <<2, 1>>, <<3, 2>>}}
GoodPlace(p) == (p.s = <<0, 1>>) <=> (p.q = <<1, 1>>)
SomeValues == {<<-3, 1>>, <<-1, 2>>, <<0, 1>>, <<1, 3>>, <<1, 1>>, <<5, 2>>, <<4, 1>>, <<-7, 4>>}
Const == [x \in Variables |-> <<1, 1>>]
MCInit == \E p \in {x \in Places : GoodPlace(x)}, g \in {1, 3, 5} :
             \E a \in SomeValues, b \in SomeValues :
                InitWith([x |-> [Const EXCEPT !["v_r"] = a, !["v_th"] = b, !["B_r"] = b, !["B_th"] = <<5, 2>>, !["rho"] = a],
                          c |-> p.c, s |-> p.s, q |-> p.q, g4 |-> g])
MCSpec == MCInit /\ [][Scale \/ Rotate]_vars
Emit == ph = "cylindrical" => CSVWrite("%1$s", <<ToJson(in)>>, IOEnv.OUT)
=============================================================================
