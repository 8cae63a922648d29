------------------------------- MODULE StillMC -------------------------------
EXTENDS Still, TLC, Json, CSV, IOUtils, Randomization, FiniteSets
CONSTANT N
VARIABLES plan
mvars == <<svars, plan>>
Nums == 0..P - 1
RootOf(a) == Pw(a, (P + 1) \div 4)
Bsq(pt) == Ad(Ml(pt.br, pt.br), Ad(Ml(pt.bf, pt.bf), Ml(pt.bt, pt.bt)))
TanHalf(u) == Dv(Ml(2, u), Sb(1, Ml(u, u)))
Names == {"br", "bf", "bt", "vr", "vf", "rh", "eo", "ea", "eh", "xx", "half", "th", "a", "ck", "w", "eta", "useE", "dvr", "dvf", "dxx"}
Whole(q) == [br |-> q.br, bf |-> q.bf, bt |-> q.bt, vr |-> q.vr, vf |-> q.vf, vt |-> 0, rh |-> q.rh, eo |-> q.eo, ea |-> q.ea,
             eh |-> q.eh, xx |-> q.xx, half |-> q.half, tan |-> TanHalf(q.half), th |-> q.th, root |-> RootOf(Bsq(q))]
Way(n) == IF n % 2 = 0 THEN "hydrostatic" ELSE "mod_hydro"
\* ---- the definitions: any point, with any parameters
Init == /\ plan \in RandomSubset(N, [Names -> Nums]) /\ prm = <<>> /\ mid = <<>> /\ near = <<>> /\ ph = "none" /\ which = "none"
Spec == Init /\ [][FALSE]_mvars
PS(q) == [g |-> 0, a |-> q.a, k |-> Ml(q.ck, q.ck)]
MS(q) == [eta |-> q.eta % 2 = 0, useE |-> FALSE, eo |-> 3, ea |-> 5, eh |-> 7]
Good(q) == q.ck # 0 /\ q.a # 0 /\ q.half # 1 /\ q.half # P - 1 /\ Usable(Whole(q), PS(q))
\* the balance is as it was taken to be: quadratic, and its zeros are in balance
Quadratic ==
  LET q == plan pt == Whole(q) p == PS(q) w == Way(q.w) r == Rotation(w, pt, p) t == Tan(pt.tan) IN
  Good(q) =>
    /\ \A v \in {q.vf, q.xx} : Away(w, pt, p, t, v) = Ad(Ad(Ml(Ml(r.a, v), v), Ml(r.b, v)), r.c)
    /\ (w = "mod_hydro" => r.a = 0) /\ (w = "hydrostatic" => r.a # 0)
    /\ LET v == IF r.a = 0 THEN Sb(0, Dv(r.c, r.b)) ELSE Ad(r.top, RootOf(r.sq)) at == [pt EXCEPT !.vf = v]
       IN (IF r.a = 0 THEN r.b # 0 ELSE ~Negative(r.sq)) => Balanced(w, at, p, BfOf(at, p, t))
\* the slopes of the fields are those of the flowing disc
Agrees ==
  LET q == plan pt == Whole(q) p == PS(q)
      m == MS(q) @@ [taylor |-> TRUE, given |-> FALSE, vt |-> 0, vr |-> 0, vf |-> 0, rh |-> 0] IN
  Good(q) /\ Slopes(pt, p, m, FALSE).fine =>
    LET s == Slopes(pt, p, m, FALSE).d d == FieldSlopes(pt, p, MS(q), pt.xx) IN \A k \in {"br", "bf", "bt"} : s[k] = d[k]
\* the other side of the disc
Odd == {"br", "bf", "vt"}
Mirror(r, sgn) == [k \in DOMAIN r |-> IF k \in Odd \/ k \in {"th", "tan", "half"} THEN Ml(sgn, r[k]) ELSE r[k]]
Mirrored ==
  LET q == plan pt == Whole(q) p == PS(q) m == MS(q) IN
  Good(q) => LET d == FieldSlopes(pt, p, m, pt.xx) e == FieldSlopes(Mirror(pt, P - 1), p, m, pt.xx)
             IN \A k \in DOMAIN d : e[k] = IF k \in Odd THEN d[k] ELSE Sb(0, d[k])
\* what is in balance at the midplane is what the disc begins with
MidBalanced ==
  LET q == plan p == PS(q) w == Way(q.w)
      pt == [Whole(q) EXCEPT !.br = 0, !.bf = 0, !.bt = 1, !.rh = 1, !.half = 0, !.tan = 0, !.th = 0, !.root = 1]
      r == Rotation(w, pt, p)
      v == IF r.a = 0 THEN Sb(0, Dv(r.c, r.b)) ELSE Ad(r.top, RootOf(r.sq))
      at == [pt EXCEPT !.vf = v]
  IN Good(q) /\ Usable(pt, p) /\ (IF r.a = 0 THEN r.b # 0 ELSE ~Negative(r.sq)) =>
       StillMidOK(w, [at EXCEPT !.xx = BfOf(at, p, Tan(0))], p, FALSE)

\* ---- studies to be carried out on the code
Any0(now) == RandomElement(Nums)
Sq(x) == Ml(x, x)
NewConf(now) == [g |-> Any0(now), vin |-> Any0(now), va |-> Any0(now), ck |-> 1 + (Any0(now) % (P - 1)), eo |-> Any0(now), ea |-> Any0(now), eh |-> Any0(now),
                 eta |-> RandomElement(BOOLEAN), useE |-> RandomElement(BOOLEAN)]
NewPoint(kind, now) ==
  [br |-> Any0(now), bf |-> Any0(now), bt |-> Any0(now), vr |-> Any0(now), vf |-> Any0(now),
   rh |-> IF kind <= 9 THEN Sq(Any0(now)) ELSE Any0(now), eo |-> Any0(now), ea |-> Any0(now), eh |-> Any0(now), xx |-> Any0(now),
   half |-> Any0(now), th |-> Any0(now)]
GenInit == plan = [which |-> "none", conf |-> <<>>, pts |-> <<>>] /\ prm = <<>> /\ mid = <<>> /\ near = <<>> /\ ph = "none" /\ which = "none"
GenConf == /\ plan.conf = <<>>
           /\ \E c \in {NewConf(plan)} : \E luck \in {1 + (Any0(plan) % 10)} : \E w \in {Way(Any0(plan))} :
                LET p == StillPar(c) ok == w = "mod_hydro" \/ ~Negative(MidBalance(AskOf(c), p).sq)
                    \* the slope of the linear balance
                    fine == w = "hydrostatic" \/ LET pt == [None EXCEPT !.bt = 1, !.rh = 1, !.vr = AskOf(c).vr, !.eo = c.eo, !.ea = c.ea, !.eh = c.eh] @@ [root |-> 1, tan |-> 0]
                                                 IN c.eo # P - c.ea /\ Rotation(w, pt, p).b # 0
                IN plan' = IF MidFine(AskOf(c), p) /\ fine /\ (ok \/ luck = 1)
                           THEN [plan EXCEPT !.conf = [c EXCEPT !.useE = @ /\ (w = "mod_hydro" \/ luck = 2)], !.which = w] ELSE plan
\* points in balance, mostly: rotation and what takes the place of the slope of B_phi follow from the rest
GenPoint == /\ plan.conf # <<>> /\ Len(plan.pts) < N
            /\ \E kind \in {1 + (Any0(plan) % 10)} : \E q \in {NewPoint(kind, plan)} :
                 LET pt == Whole(q) p == StillPar(plan.conf) w == plan.which
                     t == Tan(pt.tan)
                     r == Rotation(w, pt, p)
                     has == IF r.a = 0 THEN r.b # 0 ELSE ~Negative(r.sq)
                     v == IF r.a = 0 THEN Sb(0, Dv(r.c, r.b)) ELSE Ad(r.top, RootOf(r.sq))
                     at == [pt EXCEPT !.vf = v]
                     f == BfOf(at, p, t)
                     x == At(at, [None EXCEPT !.bf = f, !.br = BrAt(at, f, p, t)])
                     e == Ohm(x, p, t, at.root).r[1]
                     done == [at EXCEPT !.xx = IF plan.conf.useE THEN e ELSE f]
                 IN plan' = IF q.half # 1 /\ q.half # P - 1 /\ Usable(pt, p) /\ (has \/ kind = 8)
                            THEN [plan EXCEPT !.pts = Append(@, [pt |-> IF has THEN done ELSE pt, kind |-> kind, extra |-> q.vf])] ELSE plan
GenDone == plan.conf # <<>> /\ Len(plan.pts) = N /\ plan' = [plan EXCEPT !.pts = Append(@, <<>>)]
GenNext == UNCHANGED svars /\ (GenConf \/ GenPoint \/ GenDone)
GenSpec == GenInit /\ [][GenNext]_mvars
Emit == (plan.conf # <<>> /\ Len(plan.pts) = N) => CSVWrite("%1$s", <<ToJson(plan)>>, IOEnv.OUT)
=============================================================================
