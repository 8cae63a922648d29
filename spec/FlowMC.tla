-------------------------------- MODULE FlowMC --------------------------------
EXTENDS Flow, Json, CSV, IOUtils
CONSTANTS Top, Starts, Maxes, MaxCells
Grids == UNION {{g \in [1..n -> 0..Top] : \A i \in 1..n - 1 : g[i] < g[i + 1]} : n \in 2..MaxCells}
Ways == {-1, 0, 1, 9}
Paths(n) == [start : Starts, max : Maxes, way : [1..n -> Ways]]
Taken == {{}, {"stats"}, {"v"}, {"B"}}
\* full steps move by one to three, shortened ones by at most one and then not noticeably
Moves(e) == IF e = 0 THEN 1..3 ELSE IF e = 1 THEN 0..1 ELSE {0}
To(x, e) == {at.a + s * m : m \in Moves(e), s \in {Path.way[x]} \ {9}}
Step == InPath /\ at.k > 0 /\ \E x \in at.cells : Path.way[x] # 9 /\ at.e < 3 /\
           \E full \in To(x, at.e) :
              IF full <= Last THEN Next(full, Nearest(full), {x}, at.e, full - at.a, full)
              ELSE \E short \in To(x, at.e + 1) :
                 IF short <= Last THEN Next(short, Nearest(short), {x}, at.e + 1, short - at.a, full)
                 ELSE Close(full, short)
Stop == InPath /\ (at.k = Path.max \/ at.e >= 3 \/ at.k = 0 \/ Unknown) /\ Close(Last + 1, Last + 1)
MCNext == \/ \E w \in {"stats", "v", "B"} : Refuse(w) \/ Open(w)
          \/ Stats(Last) \/ (InPath /\ at.k = 0 /\ Path.start <= Last /\ First(Path.start, Nearest(Path.start)))
          \/ Step \/ Stop \/ Finish
MCInit == \E g \in Grids, t \in Taken, f \in BOOLEAN :
            \E p \in Paths(Len(g)) :
              /\ (f \/ t = {}) 
              /\ InitWith([grid |-> g, files |-> f, taken |-> t, path |-> [w \in {"v", "B"} |-> p]])
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(MCNext)
Ends == <>(ph \in {"done", "refused"})
\* solutions to follow, with different paths for the two
GenInit == \E g \in Grids : 
            LET n == Len(g) IN
            \E s \in Starts, m \in Maxes, wv \in [1..n -> Ways] :
              InitWith([grid |-> g, files |-> FALSE, taken |-> {}, 
                        path |-> [w \in {"v", "B"} |-> [start |-> s, max |-> m, way |-> wv]]])
GenSpec == GenInit /\ [][FALSE]_vars
Emit == CSVWrite("%1$s", <<ToJson([grid |-> cf.grid, start |-> cf.path["v"].start, max |-> cf.path["v"].max, way |-> cf.path["v"].way])>>, IOEnv.OUT)
===============================================================================
