------------------------------- MODULE Curves -------------------------------
(* What a plot draws: every curve is the quantity its panel and its label name, of the solution it stands for, at the stored
   angles which lie in the range asked for and in their stored order; marks, waves and the parts of a logarithm as asked.
   Angles are in eighths of a degree.  Values are whole numbers, and what is not one (speeds of waves, Mach numbers, the
   cylindrical form) is named by a number of its own: Code(solution, point, which). *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sols,      \* the solutions: [useE, kep, grid, rows, hts, internal, igrid, params, derivs, sonic, srow, roots, rrows, eta, vin]
          shown      \* how many plots have been drawn
vars == <<sols, shown>>
Single == {"plot", "derivs", "params", "combine", "acc", "surface", "vert"}
Whole == {"diverge", "conserve"}                                    \* of every solution of one run
Many == {"compare", "sonic", "vderiv", "ratio"}
Kinds == Single \cup Whole \cup Many
InitWith(s) == sols = s /\ shown = 0
\* ---- the numbers which are not whole
SLOW == 1  ALFVEN == 2  FAST == 3  AMACH == 4  FMACH == 5  VERT == 10
Code(s, p, w) == 1000000 + s * 10000 + p * 100 + w
VT == 6  VF == 5  RHO == 7
Fields(last) == <<"B_r", "B_phi", "B_theta", "v_r", "v_phi", "v_theta", "rho", last>>
Upright(last) == <<"B_r", "B_phi", "B_z", "v_r", "v_phi", "v_z", "rho", last>>
Last(s) == IF sols[s].useE THEN "E_r" ELSE "B_phi_prime"
\* ---- curves
Within(q, at) == {p \in 1..Len(at) : q.lo <= at[p] /\ at[p] <= q.hi}
RECURSIVE Ordered(_)
Ordered(ps) == IF ps = {} THEN <<>> ELSE LET m == CHOOSE m \in ps : \A n \in ps : m <= n IN <<m>> \o Ordered(ps \ {m})
Line(panel, lab, colour, ps, X(_), Y(_)) ==
  LET o == Ordered(ps) IN [panel |-> panel, role |-> "line", lab |-> lab, col |-> colour, pts |-> [i \in 1..Len(o) |-> <<X(o[i]), Y(o[i])>>]]
Marks(panel, role, at, Y(_)) == [panel |-> panel, role |-> role, lab |-> "", col |-> 0, pts |-> [i \in 1..Len(at) |-> <<at[i], Y(i)>>]]
Off(s, i) == IF i = VF THEN sols[s].kep ELSE 0
RECURSIVE Sum(_, _)
Sum(s, ps) == IF ps = {} THEN 0 ELSE LET m == CHOOSE m \in ps : TRUE IN sols[s].rows[m][RHO] + Sum(s, ps \ {m})
\* the curves of a quantity of the solution, in the range asked for
Stored(q, s, panel, lab, colour, Y(_)) == Line(panel, lab, colour, Within(q, sols[s].grid), LAMBDA p : sols[s].grid[p], Y)
Waves(q, s, panel, colour) ==
  LET W(w, lab) == Stored(q, s, panel, lab, colour, LAMBDA p : Code(s, p, w)) IN
  (IF q.slow THEN {W(SLOW, "slow")} ELSE {}) \cup (IF q.alfven THEN {W(ALFVEN, "alfven")} ELSE {}) \cup (IF q.fast THEN {W(FAST, "fast")} ELSE {})
Log(q, panel, at, Y(_)) ==
  LET Part(ps, Z(_)) == Line(panel, "", 0, ps, LAMBDA p : at[p], Z) IN
  IF q.nolog THEN {Part(Within(q, at), Y)}
  ELSE {Part({p \in Within(q, at) : Y(p) >= 0}, Y), Part({p \in Within(q, at) : Y(p) < 0}, LAMBDA p : -Y(p))}
\* ---- the first solution to have a value gives its place
FirstWith(q, F(_), k) == CHOOSE j \in 1..k : F(q.who[j]) = F(q.who[k]) /\ \A i \in 1..j - 1 : F(q.who[i]) # F(q.who[k])
Place(q, F(_), k) == Cardinality({FirstWith(q, F, j) : j \in 1..FirstWith(q, F, k)})
Curves(q) ==
  LET s == q.who[1] IN
  CASE q.kind = "plot" ->
         {Stored(q, s, i, "", 0, LAMBDA p : sols[s].rows[p][i] - Off(s, i)) : i \in 1..8}
         \cup Waves(q, s, VT, 0) \cup (IF q.sound THEN {Stored(q, s, VT, "sound", 0, LAMBDA p : 1)} ELSE {})
         \cup (IF sols[s].sonic # <<>> /\ ~q.nosonic THEN {Marks(i, "sonic", sols[s].sonic, LAMBDA j : sols[s].srow[i] - Off(s, i)) : i \in 1..8} ELSE {})
         \cup (IF sols[s].roots # <<>> /\ ~q.noroots THEN {Marks(i, "root", sols[s].roots, LAMBDA j : sols[s].rrows[j][i] - Off(s, i)) : i \in 1..8} ELSE {})
    [] q.kind = "derivs" -> UNION {Log(q, i, sols[s].igrid, LAMBDA p : sols[s].derivs[p][i]) : i \in 1..8}
    [] q.kind = "params" -> UNION {Log(q, i, sols[s].igrid, LAMBDA p : sols[s].params[p][i] - Off(s, i)) : i \in 1..8}
    [] q.kind = "combine" ->
         {Stored(q, s, 1, "v_r", 0, LAMBDA p : sols[s].rows[p][4]), Stored(q, s, 1, "v_phi", 0, LAMBDA p : sols[s].rows[p][VF] - sols[s].kep),
          Stored(q, s, 1, "v_theta", 0, LAMBDA p : sols[s].rows[p][VT]), Stored(q, s, 2, "rho", 0, LAMBDA p : sols[s].rows[p][RHO])}
         \cup {Stored(q, s, 3, Fields("")[i], 0, LAMBDA p : sols[s].rows[p][i]) : i \in 1..3}
         \cup Waves(q, s, 1, 0) \cup (IF q.sound THEN {Stored(q, s, 1, "sound", 0, LAMBDA p : 1)} ELSE {})
    [] q.kind = "acc" ->      \* the first degree, whatever the range
         LET First(panel, Y(_)) == Line(panel, "", 0, {p \in 1..Len(sols[s].grid) : sols[s].grid[p] < 8}, LAMBDA p : sols[s].grid[p], Y) IN
         {First(1, LAMBDA p : sols[s].rows[p][3] * sols[s].rows[p][2]), First(2, LAMBDA p : sols[s].rows[p][VT] * sols[s].rows[p][RHO])}
    [] q.kind = "surface" -> {Stored(q, s, 1, "", 0, LAMBDA p : Sum(s, 1..p))}
    [] q.kind = "vert" ->     \* by height above the plane
         LET Up(i, lab, Y(_)) == Line(i, lab, 0, {p \in 1..Len(sols[s].hts) : q.lo * 125 <= sols[s].hts[p] /\ sols[s].hts[p] <= q.hi * 125},
                                      LAMBDA p : sols[s].hts[p], Y) IN
         {Up(i, "", LAMBDA p : Code(s, p, VERT + i)) : i \in 1..8} \cup (IF q.sound THEN {Up(VT, "sound", LAMBDA p : 1)} ELSE {})
    [] q.kind = "diverge" ->
         UNION {LET t == q.who[k] IN {Stored(q, t, 1, q.labs[k], k, LAMBDA p : sols[t].rows[p][VT])} \cup Waves(q, t, 1, k) : k \in 1..Len(q.who)}
    [] q.kind = "conserve" ->
         {LET t == q.who[k] IN Stored(q, t, 1, q.labs[k], k, LAMBDA p : sols[t].rows[p][RHO] * sols[t].rows[p][VT]) : k \in 1..Len(q.who)}
    [] q.kind = "compare" ->
         UNION {LET t == q.who[k] IN {Stored(q, t, i, q.labs[k], k, LAMBDA p : sols[t].rows[p][i] - Off(t, i)) : i \in 1..8} : k \in 1..Len(q.who)}
    [] q.kind = "sonic" ->
         UNION {LET t == q.who[k] IN {Stored(q, t, 1, q.labs[k], k, LAMBDA p : Code(t, p, AMACH)), Stored(q, t, 2, q.labs[k], k, LAMBDA p : Code(t, p, FMACH))}
                : k \in 1..Len(q.who)}
    [] q.kind = "vderiv" ->
         {LET t == q.who[k] IN Line(1, q.labs[k], k, Within(q, sols[t].igrid), LAMBDA p : sols[t].igrid[p], LAMBDA p : sols[t].derivs[p][VT]) : k \in 1..Len(q.who)}
    [] q.kind = "ratio" ->     \* a point for each: its ambipolar diffusivity, and its surface density (of which the field squared is a part)
         {LET t == q.who[k] IN [panel |-> 1, role |-> "mark" , lab |-> q.labs[k], col |-> Place(q, LAMBDA u : sols[u].vin, k) * 100 + Place(q, LAMBDA u : sols[u].a0, k),
                                pts |-> <<<<sols[t].eta, Sum(t, Within(q, sols[t].grid))>>>>] : k \in 1..Len(q.who)}
\* a logarithm without points, or a range without any, draws nothing
Drawn(q) == {c \in Curves(q) : c.pts # <<>>}
Refuses(q) == \/ q.kind \in {"params", "vert"} /\ sols[q.who[1]].useE
              \/ q.kind \in {"derivs", "params", "vderiv"} /\ \E k \in 1..Len(q.who) : ~sols[q.who[k]].internal
\* ---- the panels: what they show and on which scale
Panels(q) ==
  LET s == q.who[1]
      Of(names, scale(_)) == [i \in 1..8 |-> <<names[i], scale(i)>>]
      Usual(i) == IF i = RHO THEN "log" ELSE IF i = VT /\ q.vlog THEN "log" ELSE "linear" IN
  CASE q.kind \in {"plot", "compare"} -> Of(Fields(Last(s)), Usual)
    [] q.kind = "derivs" -> Of(Fields(Last(s)), LAMBDA i : IF q.nolog THEN "linear" ELSE "log")
    [] q.kind = "params" -> Of(Fields(Last(s)), LAMBDA i : "log")
    [] q.kind = "vert" -> Of(Upright(Last(s)), LAMBDA i : IF i = RHO THEN "log" ELSE "linear")
    [] q.kind = "combine" -> <<<<"", "linear">>, <<"", "log">>, <<"", "linear">>>>
    [] q.kind \in {"acc", "sonic"} -> <<<<"", "linear">>, <<"", "linear">>>>
    [] q.kind = "ratio" -> <<<<"", "linear">>, <<"", "log">>>>
    [] OTHER -> <<<<"", "linear">>>>
Able(q) == /\ q.who # <<>> /\ \A k \in 1..Len(q.who) : q.who[k] \in 1..Len(sols)
           /\ q.kind \in Single => Len(q.who) = 1
           /\ Len(q.labs) = Len(q.who)
Draw(q, panels, curves) ==
  /\ Able(q) /\ ~Refuses(q) /\ panels = Panels(q) /\ curves = Drawn(q)
  /\ shown' = shown + 1 /\ UNCHANGED sols
Refuse(q) == Able(q) /\ Refuses(q) /\ UNCHANGED vars
\* ---- what must be so of what is drawn
OfOneSolution(q) == \A c \in Drawn(q) : c.role = "line" /\ q.kind \in Single \ {"acc", "surface", "vert", "derivs", "params"} =>
  \A i \in 1..Len(c.pts) : \E p \in 1..Len(sols[q.who[1]].grid) : c.pts[i][1] = sols[q.who[1]].grid[p]
Inside(q) == q.kind \notin {"acc", "vert", "ratio"} =>
  \A c \in Drawn(q) : c.role = "line" => \A i \in 1..Len(c.pts) : q.lo <= c.pts[i][1] /\ c.pts[i][1] <= q.hi
PositiveLogs(q) == q.kind \in {"derivs", "params"} /\ ~q.nolog => \A c \in Drawn(q) : \A i \in 1..Len(c.pts) : c.pts[i][2] >= 0
EachItsOwnColour(q) == q.kind \in (Many \cup Whole) \ {"ratio"} => \A c, d \in Drawn(q) : c.col = d.col => \E t \in 1..Len(q.who) : c.col = t
=============================================================================
