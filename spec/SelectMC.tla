------------------------------ MODULE SelectMC ------------------------------
EXTENDS Select, Json, CSV, IOUtils
CONSTANTS Ns, MaxPairs
VARIABLES hist
Sels == {[kind |-> "none", k |-> 0], [kind |-> "final", k |-> 0], [kind |-> "latest", k |-> 0]}
          \cup {[kind |-> "number", k |-> k] : k \in {-1, 0, 1, 2, 9, 10, 11}}
Shapes == [n : Ns, fin : BOOLEAN]
Pairs == [run : 1..2, sel : {s \in Sels : s.k \in {-1, 0, 1}}]
MCInit == hist = <<>> /\ \E a \in Shapes, b \in Shapes : InitWith(<<a, b>>)
Step(h) == hist' = Append(hist, h)
Lists == UNION {[1..m -> Pairs] : m \in 1..MaxPairs}
Wants == {<<0>>, <<1, 0>>, <<0, 1, 2>>, <<2, 5>>, <<1, 1>>}
MCNext == /\ hist = <<>>
          /\ \/ \E s \in Sels : \E res \in {Lookup(1, s)} : One(1, s, res) /\ Step([ev |-> "One", run |-> 1, sel |-> s])
             \/ \E ps \in Lists : Many(ps, Several(ps)) /\ Step([ev |-> "Many", pairs |-> ps])
             \/ All(1, [i \in 1..runs[1].n |-> <<1, i - 1>>]) /\ Step([ev |-> "All", run |-> 1])
             \/ \E w \in Wants : Some(1, w, Wanted(1, w)) /\ Step([ev |-> "Some", run |-> 1, want |-> w])
MCSpec == MCInit /\ [][MCNext]_<<vars, hist>>
Emit == Len(hist) = 1 => CSVWrite("%1$s", <<ToJson([runs |-> runs, op |-> hist[1]])>>, IOEnv.OUT)
=============================================================================
