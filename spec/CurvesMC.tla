------------------------------ MODULE CurvesMC ------------------------------
EXTENDS Curves, Json, CSV, IOUtils, TLC
VARIABLE hist
mcvars == <<vars, hist>>
\* two little solutions, and what may be asked of any
Two(useE, internal) ==
  <<[useE |-> useE, kep |-> 3, grid |-> <<0, 4, 16>>, rows |-> <<<<1, 2, 3, 4, 5, 6, 7, 8>>, <<-1, 3, 2, -4, 1, 5, 9, 2>>, <<2, 2, 2, -2, -2, 1, 1, 1>>>>, hts |-> <<0, 200, 900>>,
     internal |-> internal, igrid |-> <<0, 8, 8>>, params |-> <<<<1, 2, 3, 4, 5, 6, 7, 8>>, <<1, -1, 1, -1, 1, -1, 1, -1>>, <<0, 0, 0, 0, 0, 0, 0, 0>>>>,
     derivs |-> <<<<0, -1, 2, -3, 4, -5, 6, -7>>, <<1, 1, 1, 1, 1, 1, 1, 1>>, <<-2, -2, -2, -2, -2, -2, -2, -2>>>>,
     sonic |-> <<5>>, srow |-> <<1, 1, 1, 1, 1, 1, 1, 1>>, roots |-> <<1, 9>>, rrows |-> <<<<2, 2, 2, 2, 2, 2, 2, 2>>, <<3, 3, 3, 3, 3, 3, 3, 3>>>>, eta |-> 4, vin |-> 1, a0 |-> 2],
    [useE |-> useE, kep |-> 0, grid |-> <<1, 4>>, rows |-> <<<<1, 1, 1, 1, 1, 1, 1, 1>>, <<2, 2, 2, 2, 2, 2, 2, 2>>>>, hts |-> <<50, 200>>,
     internal |-> TRUE, igrid |-> <<4>>, params |-> <<<<1, 2, 3, 4, 5, 6, 7, 8>>>>, derivs |-> <<<<-1, -2, -3, -4, -5, -6, -7, -8>>>>,
     sonic |-> <<>>, srow |-> <<>>, roots |-> <<>>, rrows |-> <<>>, eta |-> 1, vin |-> 1, a0 |-> 3]>>
Flags(k) == CASE k = "plot" -> {"slow", "alfven", "fast", "sound", "vlog", "nosonic", "noroots"}
              [] k = "combine" -> {"slow", "alfven", "fast", "sound"}
              [] k = "diverge" -> {"slow", "alfven", "fast"}
              [] k = "vert" -> {"sound"}
              [] k = "derivs" -> {"nolog"}
              [] k = "compare" -> {"vlog"}
              [] OTHER -> {}
Ranges == {<<0, 720>>, <<0, 8>>, <<4, 16>>, <<5, 7>>}
Whos(k) == IF k \in Single THEN {<<1>>, <<2>>} ELSE {<<1, 2>>, <<2, 1>>, <<2>>}
Asks == UNION {{[kind |-> k, lo |-> r[1], hi |-> r[2], who |-> w, labs |-> [i \in 1..Len(w) |-> ToString(w[i])],
                 slow |-> "slow" \in f, alfven |-> "alfven" \in f, fast |-> "fast" \in f, sound |-> "sound" \in f, vlog |-> "vlog" \in f,
                 nosonic |-> "nosonic" \in f, noroots |-> "noroots" \in f, nolog |-> "nolog" \in f]
                : f \in SUBSET Flags(k), r \in Ranges, w \in Whos(k)} : k \in Kinds}
MCInit == hist = <<>> /\ \E e \in BOOLEAN, i \in BOOLEAN : InitWith(Two(e, i))
MCNext == hist = <<>> /\ \E q \in Asks : (IF Refuses(q) THEN Refuse(q) ELSE Draw(q, Panels(q), Drawn(q))) /\ hist' = <<q>>
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == hist # <<>> => CSVWrite("%1$s", <<ToJson(hist[1])>>, IOEnv.OUT)
\* of every request
Q == hist[1]
AllOfOne == hist # <<>> /\ ~Refuses(Q) => OfOneSolution(Q)
AllInside == hist # <<>> /\ ~Refuses(Q) => Inside(Q)
AllPositive == hist # <<>> /\ ~Refuses(Q) => PositiveLogs(Q)
AllColours == hist # <<>> /\ ~Refuses(Q) => EachItsOwnColour(Q)
=============================================================================
