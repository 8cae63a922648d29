------------------------------- MODULE DiscMC -------------------------------
EXTENDS Disc, TLC, Json, CSV, IOUtils, Randomization, FiniteSets
CONSTANT N            \* points in a study (generation), or how many points are looked at (checking)
VARIABLES plan
mvars == <<vars, plan>>
Nums == 0..P - 1
RootOf(a) == Pw(a, (P + 1) \div 4)
Bsq(pt) == Ad(Ml(pt.br, pt.br), Ad(Ml(pt.bf, pt.bf), Ml(pt.bt, pt.bt)))
\* a tangent whose cosine exists
TanHalf(u) == Dv(Ml(2, u), Sb(1, Ml(u, u)))

\* ---- the equations themselves: any point, with any parameters
Names == {"br", "bf", "bt", "vr", "vf", "vt", "rh", "eo", "ea", "eh", "xx", "half", "th", "g", "a", "k", "useE", "eta", "me", "vtd",
          "dbr", "dbf", "lam", "taylor", "given"}
Whole(q) == [br |-> q.br, bf |-> q.bf, bt |-> q.bt, vr |-> q.vr, vf |-> q.vf, vt |-> q.vt, rh |-> q.rh, eo |-> q.eo, ea |-> q.ea,
             eh |-> q.eh, xx |-> q.xx, half |-> q.half, tan |-> TanHalf(q.half), th |-> q.th, root |-> RootOf(Bsq(q))]
P3(q) == [g |-> q.g, a |-> q.a, k |-> q.k]
M3(q) == [eta |-> q.eta % 2 = 0, useE |-> q.useE % 2 = 0, eo |-> q.me, ea |-> Ml(q.me, 2), eh |-> Ml(q.me, 5), taylor |-> q.taylor % 5 = 0,
          given |-> q.given % 5 = 0, vt |-> q.vtd, vr |-> q.dbr, vf |-> q.dbf, rh |-> q.lam]
Init == /\ plan \in RandomSubset(N, [Names -> Nums]) /\ prm = <<>> /\ mid = <<>> /\ near = <<>> /\ ph = "none"
Spec == Init /\ [][FALSE]_mvars
Usable(q) == Fit(Whole(q)) /\ q.half # 1 /\ q.half # P - 1 /\ Slopes(Whole(q), P3(q), M3(q), FALSE).fine
\* the slopes found fulfil every equation which is not replaced by the expansion or a given value
Fulfilled ==
  LET q == plan pt == Whole(q) p == P3(q) m == M3(q) t == Tan(pt.tan) IN
  Usable(q) =>
    LET d == Slopes(pt, p, m, FALSE).d
        x == At(pt, [k \in DOMAIN None |-> d[k]])
        E == Ohm(x, p, t, pt.root)
        xf == [x EXCEPT !.bf = <<pt.bf, d.bf, Ml(Half, d.xx)>>, !.br = <<pt.br, d.br, 0>>]
        r2 == Zero(LAMBDA r : Ohm([xf EXCEPT !.br = <<pt.br, d.br, r>>], p, t, pt.root).f[2])
        xx == [xf EXCEPT !.br = <<pt.br, d.br, r2>>]
    IN /\ E.f[1] = 0 /\ Solenoid(x, p, t)[1] = 0
       /\ (~m.taylor => Radial(x, p, t)[1] = 0 /\ Azimuthal(x, p, t)[1] = 0 /\ Mass(x, p, t)[1] = 0)
       /\ (~m.taylor /\ ~m.given => Polar(x, p, t)[1] = 0)
       /\ (m.useE => E.r[1] = pt.xx /\ d.xx = Ml(Sb(p.g, Num(3, 4)), E.t[1]))
       /\ (~m.useE => Ohm(xx, p, t, pt.root).f[2] = 0 /\ Induction(xx, p, t, pt.root, FALSE)[1] = 0)
\* the other side of the disc: odd quantities change their sign, and their slopes do not
Odd == {"br", "bf", "vt"}
Flip(pt, sgn, useE) == [k \in DOMAIN pt |-> IF k \in Odd \/ k \in {"th", "tan", "half"} THEN Ml(sgn, pt[k]) ELSE pt[k]]
Mirrored ==
  LET q == plan pt == Whole(q) p == P3(q) m == M3(q) IN
  Usable(q) =>
    LET d == Slopes(pt, p, m, FALSE).d
        e == Slopes(Flip(pt, P - 1, m.useE), p, m, FALSE).d
    IN \A k \in DOMAIN d : e[k] = IF k \in Odd THEN d[k] ELSE Sb(0, d[k])
\* a field and a density which balance each other in the same way: B times lam, density times lam^2
Rescaled ==
  LET q == plan pt == Whole(q) p == P3(q) m == M3(q)
      lam == Ml(q.lam, q.lam)
      By1(r) == [k \in DOMAIN r |-> IF k \in {"br", "bf", "bt", "root", "xx"} THEN Ml(lam, r[k])
                                    ELSE IF k = "rh" THEN Ml(Ml(lam, lam), r[k]) ELSE r[k]]
      mm == [m EXCEPT !.rh = Ml(Ml(lam, lam), @)]
  IN Usable(q) /\ lam # 0 => Slopes(By1(pt), p, mm, FALSE).d = By1(Slopes(pt, p, m, FALSE).d)
\* the magnetic force is across the field; the Hall effect does no work, the others only along the current
Physical ==
  LET q == plan pt == Whole(q) p == P3(q) t == Tan(pt.tan)
      x == At(pt, [None EXCEPT !.br = q.dbr, !.bf = q.dbf])
      J == Curl(x, p, t) F == Force(x, p, t) E == Ohm(x, p, t, pt.root) W == Cross(V(x), B(x))
      own == [r |-> Plus(E.r, W.r), f |-> Plus(E.f, W.f), t |-> Plus(E.t, W.t)]
      b == Unit(x, pt.root)
  IN Fit(pt) /\ pt.rh # 0 =>
       /\ Dot(F, B(x))[1] = 0
       /\ Dot(own, J)[1] = Ad(Ml(pt.eo, Dot(J, J)[1]), Ml(pt.ea, Sb(Dot(J, J)[1], Ml(Dot(J, b)[1], Dot(J, b)[1]))))

\* ---- studies to be carried out on the code
Any0(now) == RandomElement(Nums)     \* (the argument keeps TLC from taking this for one number)
Sq(x) == Ml(x, x)
NewConf(now) == [g |-> Any0(now), vin |-> Any0(now), va |-> Any0(now), ck |-> 1 + (Any0(now) % (P - 1)), eo |-> Any0(now), ea |-> Any0(now), eh |-> Any0(now),
            eta |-> RandomElement(BOOLEAN), useE |-> RandomElement(BOOLEAN)]
NewPoint(kind, now) ==
  [br |-> Any0(now), bf |-> Any0(now), bt |-> Any0(now), vr |-> Any0(now), vf |-> Any0(now), vt |-> IF kind \in 1..7 THEN Sq(Any0(now)) ELSE IF kind = 8 THEN 0 ELSE Any0(now),
   rh |-> IF kind <= 8 THEN Sq(Any0(now)) ELSE Any0(now), eo |-> Any0(now), ea |-> Any0(now), eh |-> Any0(now), xx |-> Any0(now), half |-> Any0(now), th |-> Any0(now)]
GenInit == plan = [conf |-> <<>>, pts |-> <<>>] /\ prm = <<>> /\ mid = <<>> /\ near = <<>> /\ ph = "none"
GenConf == /\ plan.conf = <<>>
           /\ \E c \in {NewConf(plan)} : \E luck \in {1 + (Any0(plan) % 10)} :
                LET ok == ~Negative(MidBalance(AskOf(c), ParOf(c)).sq)
                IN plan' = IF MidFine(AskOf(c), ParOf(c)) /\ (ok \/ luck = 1) THEN [plan EXCEPT !.conf = c] ELSE plan
GenPoint == /\ plan.conf # <<>> /\ Len(plan.pts) < N
            /\ \E kind \in {1 + (Any0(plan) % 10)} : \E q \in {NewPoint(kind, plan)} :
                 LET pt == Whole(q)
                     m(e) == [eta |-> plan.conf.eta, useE |-> plan.conf.useE, eo |-> 0, ea |-> 0, eh |-> 0, taylor |-> e, given |-> FALSE, vt |-> 0,
                              vr |-> 0, vf |-> 0, rh |-> 0]
                     taylor == kind \in {1, 8}
                     s == Slopes(pt, ParOf(plan.conf), m(taylor), FALSE)
                 IN plan' = IF Fit(pt) /\ q.half # 1 /\ q.half # P - 1 /\ s.fine
                            THEN [plan EXCEPT !.pts = Append(@, [pt |-> pt, taylor |-> taylor, kind |-> kind, extra |-> q.br])] ELSE plan
GenDone == plan.conf # <<>> /\ Len(plan.pts) = N /\ plan' = [plan EXCEPT !.pts = Append(@, <<>>)]
GenNext == UNCHANGED vars /\ (GenConf \/ GenPoint \/ GenDone)
GenSpec == GenInit /\ [][GenNext]_mvars
Emit == (plan.conf # <<>> /\ Len(plan.pts) = N) => CSVWrite("%1$s", <<ToJson(plan)>>, IOEnv.OUT)
=============================================================================
