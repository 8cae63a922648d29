-------------------------------- MODULE Still --------------------------------
(* Discs without flow along th: the hydrostatic ones, and those whose rotation is also nearly Keplerian ("mod_hydro", where
   v_phi^2 - k becomes 2*nk*(v_phi - nk) with nk*nk = k).  Here g = 0.  Density and the fields follow from the equations as
   always, while v_r and v_phi are those with which the radial and azimuthal momentum balance everywhere: at a point the
   balances hold as they are, and so do their derivatives.  The equations themselves are those of Disc. *)
EXTENDS Disc
CONSTANT Loose        \* the balances whose derivatives may be as found (known findings, by number; see FoundAt)
VARIABLE which        \* "hydrostatic" or "mod_hydro"
svars == <<vars, which>>

Known == <<[way |-> "hydrostatic", of |-> "radial"], [way |-> "hydrostatic", of |-> "induction"],
           [way |-> "mod_hydro", of |-> "radial"], [way |-> "mod_hydro", of |-> "induction"]>>
StillPar(c) == [ParOf(c) EXCEPT !.g = 0]
SPar == StillPar(prm)
NK(p) == Pw(p.k, (P + 1) \div 4)
\* the radial balance
RadialOf(w, x, p, t) ==
  IF w = "hydrostatic" THEN Radial(x, p, t)
  ELSE Minus(Plus(Radial(x, p, t), Minus(Times(x.vf, x.vf), Const(p.k))), By(Ml(2, NK(p)), Minus(x.vf, Const(NK(p)))))
\* the slopes of the field with which the azimuthal balance and the induction along phi hold
BfOf(pt, p, t) == Zero(LAMBDA f : Azimuthal(At(pt, [None EXCEPT !.bf = f]), p, t)[1])
BrAt(pt, f, p, t) == Zero(LAMBDA r : Ohm(At(pt, [None EXCEPT !.br = r, !.bf = f]), p, t, pt.root).f[1])
\* how far a rotation speed is from balance
Away(w, pt, p, t, vf) == LET q == [pt EXCEPT !.vf = vf] f == BfOf(q, p, t)
                         IN RadialOf(w, At(q, [None EXCEPT !.bf = f, !.br = BrAt(q, f, p, t)]), p, t)[1]
\* ... which is quadratic in it
Rotation(w, pt, p) ==
  LET t == Tan(pt.tan)
      r0 == Away(w, pt, p, t, 0) r1 == Away(w, pt, p, t, 1) r2 == Away(w, pt, p, t, 2)
      a == Ml(Half, Sb(Ad(r2, r0), Ml(2, r1)))
      b == Sb(Sb(r1, r0), a)
      top == IF a = 0 THEN 0 ELSE Sb(0, Dv(b, Ml(2, a)))
  IN [a |-> a, b |-> b, c |-> r0, top |-> top, sq |-> IF a = 0 THEN 0 ELSE Sb(Ml(top, top), Dv(r0, a))]
Usable(pt, p) == /\ Fit(pt) /\ pt.rh # 0 /\ pt.bt # 0 /\ pt.vt = 0
                 /\ LET b == pt.bf IN Ad(pt.eo, Ml(pt.ea, Sb(1, Dv(Ml(b, b), Ml(pt.root, pt.root))))) # 0
\* a point is in balance
Balanced(w, pt, p, bf) == LET t == Tan(pt.tan) x == At(pt, [None EXCEPT !.bf = bf, !.br = BrAt(pt, bf, p, t)])
                          IN Azimuthal(x, p, t)[1] = 0 /\ RadialOf(w, x, p, t)[1] = 0
\* the slopes of everything but the velocities, from the slope of B_phi
FieldSlopes(pt, p, m, bf) ==
  LET t == Tan(pt.tan)
      br == BrAt(pt, bf, p, t)
      bt == Zero(LAMBDA u : Solenoid(At(pt, [None EXCEPT !.bt = u]), p, t)[1])
      d1 == [None EXCEPT !.br = br, !.bf = bf, !.bt = bt]
      rh == Zero(LAMBDA u : Polar(At(pt, [d1 EXCEPT !.rh = u]), p, t)[1])
      d2 == [d1 EXCEPT !.rh = rh]
      s == IF m.eta THEN Scale(At(pt, d2))[2] ELSE 0
  IN [d2 EXCEPT !.eo = Ml(s, m.eo), !.ea = Ml(s, m.ea), !.eh = Ml(s, m.eh)]
\* ---- the known findings: what takes the place of the derivatives of the radial balance and of the induction equation where
\* both velocities change (d.vf and d.xx below); the flaws are those of the code as it was found
FoundAt(w, pt, p, d) ==
  LET t0 == pt.tan sec2 == Ad(1, Ml(t0, t0))
      x == At(pt, d) b == Unit(x, pt.root) t == Tan(t0)
      q == Num(1, 4) nk == NK(p) a == p.a
      Ds == Plus(x.eo, Times(x.ea, Minus(Const(1), Times(b.f, b.f))))
      hb == Times(x.eh, b.t) ab == Times(x.ea, Times(b.r, b.f))
      Xs == Over(Plus(hb, ab), Ds) Cs == Over(Minus(hb, ab), Ds)
      Ns == Plus(Times(Times(x.ea, b.f), Minus(Times(b.r, t), By(q, b.t))), Times(x.eh, Plus(By(q, b.r), Times(b.t, t))))
      X == Xs[1] C == Cs[1] D == Ds[1] N == Ns[1]
      \* X' has the sign of C in its second half
      Xd == Ad(Xs[2], Dv(Ml(Ml(2, ab[1]), Ds[2]), Ml(D, D)))
      held == <<pt.vr, 0>>
      Vs == Minus(Times(held, x.bt), Times(x.bf, Ns))        \* v_r held
      z4 == Sb(Sb(Ml(pt.bt, d.bf), Ml(q, Ml(pt.br, pt.bf))), Ml(Ml(pt.bt, pt.bf), t0))
      z1 == Ml(Dv(Ml(2, a), Ml(pt.vf, pt.rh)),
               Sb(Sb(Sb(Sb(Ml(d.bt, Sb(d.bf, Ml(pt.bf, t0))), Ml(q, Ad(Ml(d.br, pt.bf), Ml(pt.br, d.bf)))), Ml(Ml(pt.bt, d.bf), t0)),
                        Ml(Ml(pt.bt, pt.bf), sec2)), Ml(Dv(d.rh, pt.rh), z4)))
      z5 == Ad(Ad(pt.eo, Ml(pt.ea, Sb(1, Ml(b.r[1], b.r[1])))), Ml(C, Sb(hb[1], ab[1])))     \* the sign of the ambipolar part
      ar == Dv(a, pt.rh)
      vfrho == Ml(Ml(pt.vf, pt.vf), pt.rh)
      \* hydrostatic: some quarters have the wrong sign, an eighth is a sixteenth, and the derivative of v_r counts twice
      flow == Ad(Ml(q, pt.br), Ml(pt.bt, t0))
      bad1 == Ad(Ml(Ml(pt.ea, b.f[1]), Ad(Ml(q, b.t[1]), Ml(b.r[1], t0))), Ml(pt.eh, Ad(Ml(q, b.r[1]), Ml(b.t[1], t0))))
      bad2 == Ad(Ml(Ml(pt.ea, b.f[1]), Ad(Ml(q, b.t[1]), Ml(b.r[1], t0))), Ml(pt.eh, Sb(Ml(b.t[1], t0), Ml(q, b.r[1]))))
      carry == Sb(Ml(pt.vr, pt.bt), Ml(pt.bf, bad1))
      sq == Sb(Ml(2, pt.vf), Ml(Half, Ml(X, pt.vr)))
      shape == Sb(Sb(Ml(q, Ml(pt.bf, pt.bf)), Ml(Ml(X, pt.bf), flow)), Ml(Dv(pt.bt, D), carry))
      change == Sb(Sb(Sb(Sb(Ml(Half, Ml(d.bf, pt.bf)), Ml(Ad(Ml(Xd, pt.bf), Ml(X, d.bf)), flow)),
                         Ml(Ml(X, pt.bf), Ad(Ad(Ml(q, d.br), Ml(d.bt, t0)), Ml(pt.bt, sec2)))),
                      Ml(Dv(Sb(Ml(d.bt, D), Ml(pt.bt, Ds[2])), Ml(D, D)), carry)),
                   Ml(Dv(pt.bt, D), Sb(Sb(Ml(d.bt, pt.vr), Ml(d.bf, bad2)), Ml(pt.bf, Ns[2]))))
      h2 == Ad(Ml(q, Ml(pt.vr, Xd)),
               Dv(Sb(Ad(Ml(Ml(Ml(pt.vr, pt.vr), Ml(X, Xd)), Num(1, 16)), Ml(Dv(Dv(Ml(a, d.rh), pt.rh), pt.rh), shape)), Ml(ar, change)), sq))
      h3 == Ad(Ml(q, X), Dv(Ad(Ml(pt.vr, Sb(Ml(Ml(X, X), Num(1, 16)), 1)), Dv(Ml(Ml(2, a), Ml(pt.bt, pt.bt)), Ml(pt.rh, D))), sq))
      hden == Ad(vfrho, Ml(Ml(2, a), Ml(h3, z4)))
      h6 == Ad(z5, Dv(Ml(Ml(Ml(2, a), Ml(pt.bt, pt.bt)), Ml(pt.vf, Ad(C, h3))), hden))
      h7 == Ad(h2, Dv(Ml(Ad(C, h3), Sb(Ml(z1, vfrho), Ml(h2, z4))), hden))
      \* mod_hydro: the part of the induced current which v_r carries is not in the balance, nor is a_0/rho with that of B_phi
      Gs == Times(Over(x.bt, Ds), Vs)
      m2 == Sb(0, Dv(Ml(ar, Sb(Sb(Sb(Sb(Ml(Half, Ml(d.bf, pt.bf)), Ml(Ml(d.bt, d.bf), X)), Ml(Ml(pt.bt, d.bf), Xd)),
                                  Ml(Dv(d.rh, pt.rh), Sb(Sb(Ml(q, Ml(pt.bf, pt.bf)), Ml(Ml(X, d.bf), pt.bt)), Gs[1]))), Gs[2])), Ml(2, nk)))
      m3 == Sb(Dv(Ml(pt.bt, pt.bt), D), Dv(pt.vr, Ml(2, nk)))
      m6 == Ad(z5, Ml(Ml(pt.bt, pt.bt), Ad(Dv(X, Ml(2, nk)),
                 Dv(Ml(Ml(a, Ad(C, m3)), Sb(Ml(2, pt.vf), Dv(Ml(z4, X), nk))), Sb(vfrho, Ml(Ml(m3, z4), Ml(a, pt.vr)))))))
      m7 == Ad(z5, Ml(Ml(pt.bt, pt.bt), Ad(Dv(X, nk),
                 Dv(Ml(Ml(a, Sb(C, Dv(pt.vr, Ml(2, nk)))), Sb(Ml(Ml(2, nk), pt.vf), Ml(z4, X))), Sb(Ml(vfrho, nk), Ml(z4, Ml(a, pt.vr)))))))
      z6 == IF w = "hydrostatic" THEN h6 ELSE m6
      z7 == IF w = "hydrostatic" THEN h7 ELSE m7
      \* both: the current of B_phi counts with the wrong sign, and not all of it is differentiated
      Os == Plus(x.eo, Times(x.ea, Minus(Const(1), Times(b.r, b.r))))
      Ws == Plus(Os, By(q, Plus(Times(x.ea, Times(b.r, b.t)), Times(x.eh, b.f))))
      H == Ad(hb[1], ab[1])
      T1 == Sb(Ml(Cs[2], Sb(Ml(pt.bf, N), Ml(pt.vr, pt.bt))), Ml(C, Vs[2]))
      Along2 == Ml(Num(3, 4), Ad(Ad(Ml(Ad(d.br, Ml(q, pt.bt)), Ad(Ml(pt.eh, b.r[1]), Ml(Ml(pt.ea, b.t[1]), b.f[1]))),
                                    Ml(d.bf, Sb(Ml(pt.eh, b.f[1]), Ml(pt.ea, Ml(b.r[1], b.t[1]))))),
                                 Ml(pt.bf, Sb(Ad(Ml(q, pt.eo), Ml(pt.ea, Ad(Ml(q, Sb(1, Ml(b.t[1], b.t[1]))), Ml(t0, Ml(b.r[1], b.t[1]))))),
                                              Ml(Ml(pt.eh, b.f[1]), t0)))))
      T3 == Ml(d.bf, Ad(Ad(Os[2], Ml(Ad(Cs[2], C), H)), Ws[1]))
      all == Sb(Sb(Sb(Sb(Sb(T1, Ml(pt.vf, d.bt)), T3), Ml(pt.bf, Ws[2])), Along2), Ml(pt.bt, z7))
  IN [vf |-> IF w = "hydrostatic" THEN Ad(h2, Ml(d.vr, h3))
             ELSE Ad(Sb(m2, Dv(Ml(d.vr, pt.vr), Ml(2, nk))), Dv(Ml(d.xx, Ml(pt.bt, X)), Ml(2, nk))),
      xx |-> Dv(all, z6)]
\* d: the slopes; velocities: do these change (or are they held, or found again at every point)
StillFit(w, pt, p, m, d, velocities) ==
  LET t == Tan(pt.tan)
      x == At(pt, d)
      Further(r) == [x EXCEPT !.bf = <<pt.bf, d.bf, Ml(Half, d.xx)>>, !.br = <<pt.br, d.br, r>>]
      y == Further(Zero(LAMBDA r : Ohm(Further(r), p, t, pt.root).f[2]))
      Fine(e, s, found) == s = 0 \/ ([way |-> w, of |-> e] \in {Known[k] : k \in Loose} /\ found)
  IN /\ d.vt = 0 /\ [k \in DOMAIN None |-> IF k \in {"vr", "vf"} THEN 0 ELSE d[k]] = FieldSlopes(pt, p, m, d.bf)
     /\ IF m.useE
        THEN d.vr = 0 /\ d.vf = 0 /\ Ohm(x, p, t, pt.root).r[1] = pt.xx /\ Balanced(w, pt, p, d.bf)
             /\ d.xx = Ml(Sb(p.g, Num(3, 4)), Ohm(x, p, t, pt.root).t[1])
        ELSE /\ d.bf = pt.xx
             /\ IF ~velocities THEN d.vr = 0 /\ d.vf = 0
                ELSE /\ Azimuthal(y, p, t)[2] = 0
                     /\ Fine("radial", RadialOf(w, y, p, t)[2], d.vf = FoundAt(w, pt, p, d).vf)
                     /\ Fine("induction", Induction(y, p, t, pt.root, FALSE)[1], d.xx = FoundAt(w, pt, p, d).xx)

\* ---- a study
StillInit(w, c) == InitWith(c) /\ which = w
StillMid(pt, p) == MidSlopes(pt.vf, pt, p).err
StillMidOK(w, pt, p, useE) ==
  LET s == MidSlopes(pt.vf, pt, p) IN
  /\ pt.br = 0 /\ pt.bf = 0 /\ pt.bt = 1 /\ pt.vt = 0 /\ pt.rh = 1
  /\ IF w = "hydrostatic" THEN s.err = 0 /\ ~Negative(Sb(pt.vf, MidBalance(pt, p).top))
     ELSE Ad(s.err, Sb(Sb(Ml(pt.vf, pt.vf), p.k), Ml(Ml(2, NK(p)), Sb(pt.vf, NK(p))))) = 0
  /\ pt.xx = IF useE THEN s.er ELSE s.bf
StillMidplane(pt, a, k, g) ==
  /\ ph = "asked" /\ MidFine(AskOf(prm), SPar) /\ StillMidOK(which, pt, SPar, prm.useE)
  /\ \A n \in {"vr", "eo", "ea", "eh"} : pt[n] = AskOf(prm)[n]
  /\ a = SPar.a /\ k = SPar.k /\ g = 0
  /\ mid' = pt /\ ph' = "midplane" /\ UNCHANGED <<prm, near, which>>
StillImpossible == /\ ph = "asked" /\ which = "hydrostatic" /\ MidFine(AskOf(prm), SPar) /\ Negative(MidBalance(AskOf(prm), SPar).sq)
                   /\ ph' = "impossible" /\ UNCHANGED <<prm, mid, near, which>>
SModes == [eta |-> prm.eta, useE |-> prm.useE, eo |-> prm.eo, ea |-> prm.ea, eh |-> prm.eh]
\* pt as asked for; now: the point with the velocities found at it, where they are not integrated
StillEvaluate(pt, now, velocities, d, noted, kept) ==
  /\ ph = "midplane" /\ UNCHANGED svars
  /\ IF which = "mod_hydro" /\ prm.useE THEN now = [pt EXCEPT !.vr = now.vr, !.vf = now.vf] ELSE now = pt
  /\ ~Negative(pt.rh)
  /\ Usable(now, SPar) /\ StillFit(which, now, SPar, SModes, d, velocities)
  /\ (which = "hydrostatic" => ~Negative(Rotation(which, pt, SPar).sq))
  /\ IF ~noted THEN kept = <<>>
     ELSE Len(kept) = 1 /\ kept[1].th = pt.th /\ kept[1].pt = Row(now) /\ kept[1].d = Row(d)
\* refused, so that another step can be tried: negative densities, and where no rotation speed is in balance
StillRefuse(pt, code, noted, why, changed) ==
  /\ ph = "midplane" /\ UNCHANGED svars /\ ~changed /\ code > 0
  /\ \/ Negative(pt.rh) /\ why = IF noted THEN <<"negative density">> ELSE <<>>
     \/ ~Negative(pt.rh) /\ which = "hydrostatic" /\ Negative(Rotation(which, pt, SPar).sq) /\ why = <<>>
\* after an integration in which velocities are found at every point, those of its rows are found as well
Rows(pts, found) ==
  /\ ph = "midplane" /\ UNCHANGED svars /\ Len(found) = Len(pts)
  /\ \A i \in 1..Len(pts) :
       IF which = "mod_hydro" /\ prm.useE
       THEN /\ found[i] = [pts[i] EXCEPT !.vr = found[i].vr, !.vf = found[i].vf]
            /\ LET t == Tan(pts[i].tan)
                   ER(f) == Sb(Ohm(At(found[i], [None EXCEPT !.bf = f, !.br = BrAt(found[i], f, SPar, t)]), SPar, t, found[i].root).r[1], found[i].xx)
               IN Usable(found[i], SPar) /\ HasZero(ER) /\ Balanced(which, found[i], SPar, Zero(ER))
       ELSE found[i] = pts[i]
=============================================================================
