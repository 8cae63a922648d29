-------------------------------- MODULE Disc --------------------------------
(* The equations of the disc.  A radially self-similar, stationary, isothermal flow with Ohmic, Hall and ambipolar
   diffusion: with latitude th from the midplane, velocities go as r^(-1/2), fields as r^(g-5/4) and the density as
   r^(2g-3/2).  Every quantity is written as a power series in th about a point, and the equations are statements about
   the coefficients, which are numbers of the field of P elements: exact, so an identity holds or it does not.
   (r, phi, th) is right-handed.  A series is a sequence: s[1] + s[2]*x + s[3]*x^2 + ... *)
EXTENDS Integers, Sequences, TLC
CONSTANTS P,          \* a prime; if -1 has no root then the squares are the numbers which count as positive
          Turned,     \* the second derivative of B_phi may be that of the known finding (see Induction)
          Swapped     \* the third derivatives of B_phi and B_r about the midplane may be (see AsFound)

\* ---- numbers
Ad(a, b) == (a + b) % P
Sb(a, b) == (a + P - b) % P
Ml(a, b) == (a * b) % P
RECURSIVE Pw(_, _)
Pw(a, n) == IF n = 0 THEN 1 ELSE LET h == Pw(a, n \div 2) IN IF n % 2 = 0 THEN Ml(h, h) ELSE Ml(Ml(h, h), a)
RECURSIVE Bz(_, _, _, _)
Bz(r0, r1, s0, s1) == IF r1 = 0 THEN s0 ELSE LET q == r0 \div r1 IN Bz(r1, r0 - q * r1, s1, s0 - q * s1)
Inverse(b) == Bz(b, P, 1, 0) % P          \* (of something which has one)
Dv(a, b) == Ml(a, Inverse(b))
Num(n, d) == Dv(n % P, d)
Positive(a) == Pw(a, (P - 1) \div 2) = 1
Negative(a) == a # 0 /\ ~Positive(a)
\* the zero of an affine function
Zero(R(_)) == LET r0 == R(0) IN Dv(Sb(0, r0), Sb(R(1), r0))
HasZero(R(_)) == R(0) # R(1)

\* ---- series
Short(s, t) == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
Plus(s, t) == TLCEval([i \in 1..Short(s, t) |-> Ad(s[i], t[i])])
Minus(s, t) == TLCEval([i \in 1..Short(s, t) |-> Sb(s[i], t[i])])
By(c, s) == TLCEval([i \in 1..Len(s) |-> Ml(c, s[i])])
RECURSIVE Acc(_, _, _, _)
Acc(s, t, i, k) == IF k = 0 THEN 0 ELSE Ad(Ml(s[k], t[i + 1 - k]), Acc(s, t, i, k - 1))     \* sum of s[j]*t[i+1-j], j <= k
Times(s, t) == TLCEval([i \in 1..Short(s, t) |-> Acc(s, t, i, i)])
RECURSIVE Quot(_, _, _)
Quot(s, t, n) == IF n = 0 THEN <<>>
                 ELSE LET q == Quot(s, t, n - 1) IN Append(q, Dv(Sb(s[n], Acc(q, t, n, n - 1)), t[1]))
Over(s, t) == Quot(s, t, Short(s, t))
RECURSIVE RootTo(_, _, _)
RootTo(s, r, n) ==
  IF n = 1 THEN <<r>>
  ELSE LET q == RootTo(s, r, n - 1)
           m == Append(q, 0)
       IN Append(q, Dv(Sb(s[n], Acc(m, m, n, n)), Ml(2, r)))
Root(s, r) == RootTo(s, r, Len(s))            \* the root which begins with r
Diff(s) == TLCEval([i \in 1..Len(s) - 1 |-> Ml(i % P, s[i + 1])])
Const(c) == TLCEval([i \in 1..6 |-> IF i = 1 THEN c ELSE 0])
RECURSIVE TanTo(_, _)
TanTo(t, n) == IF n = 1 THEN <<t>>
               ELSE LET s == TanTo(t, n - 1) IN Append(s, Dv(Ad(IF n = 2 THEN 1 ELSE 0, Times(s, s)[n - 1]), n - 1))
Tan(t) == TanTo(t, 5)
Vanishes(s) == \A i \in 1..Len(s) : s[i] = 0

\* ---- the equations; x has the series br, bf, bt, vr, vf, vt, rh, eo, ea, eh; p the numbers g, a, k; t is the tangent
Half == Num(1, 2)
Q(p) == Sb(Num(1, 4), p.g)
Dot(a, b) == Plus(Plus(Times(a.r, b.r), Times(a.f, b.f)), Times(a.t, b.t))
Cross(a, b) == [r |-> Minus(Times(a.f, b.t), Times(a.t, b.f)),
                f |-> Minus(Times(a.t, b.r), Times(a.r, b.t)),
                t |-> Minus(Times(a.r, b.f), Times(a.f, b.r))]
B(x) == [r |-> x.br, f |-> x.bf, t |-> x.bt]
V(x) == [r |-> x.vr, f |-> x.vf, t |-> x.vt]
Curl(x, p, t) == [r |-> Minus(Times(x.bf, t), Diff(x.bf)),
                  f |-> Plus(Diff(x.br), By(Q(p), x.bt)),
                  t |-> By(Sb(0, Q(p)), x.bf)]
Solenoid(x, p, t) == Plus(Minus(Diff(x.bt), Times(x.bt, t)), By(Ad(p.g, Num(3, 4)), x.br))
Mass(x, p, t) == LET f == Times(x.rh, x.vt) IN Plus(Minus(Diff(f), Times(f, t)), By(Ml(2, p.g), Times(x.rh, x.vr)))
Force(x, p, t) == LET F == Cross(Curl(x, p, t), B(x)) IN
  [r |-> By(p.a, Over(F.r, x.rh)), f |-> By(p.a, Over(F.f, x.rh)), t |-> By(p.a, Over(F.t, x.rh))]
\* advection of a component along th is left out where the flow has no such component (hydrostatic discs)
Along(x, s) == IF Vanishes(x.vt) THEN TLCEval([i \in 1..Len(s) |-> 0]) ELSE Times(x.vt, Diff(s))
Radial(x, p, t) == Minus(Along(x, x.vr),
  Plus(Plus(By(Half, Times(x.vr, x.vr)), Plus(Times(x.vt, x.vt), Times(x.vf, x.vf))),
       Plus(Const(Sb(Sb(Num(5, 2), Ml(2, p.g)), p.k)), Force(x, p, t).r)))
Azimuthal(x, p, t) == Minus(Plus(By(Half, Times(x.vr, x.vf)), Minus(Along(x, x.vf), Times(Times(x.vt, x.vf), t))),
                            Force(x, p, t).f)
Polar(x, p, t) == Minus(Plus(Plus(By(Half, Times(x.vr, x.vt)), Along(x, x.vt)), Times(Times(x.vf, x.vf), t)),
                        Minus(Force(x, p, t).t, Over(Diff(x.rh), x.rh)))
Magn(x, root) == Root(Dot(B(x), B(x)), root)
Unit(x, root) == LET m == Over(Const(1), Magn(x, root)) IN [r |-> Times(x.br, m), f |-> Times(x.bf, m), t |-> Times(x.bt, m)]
\* the electric field: Ohm's law
Ohm(x, p, t, root) ==
  LET J == Curl(x, p, t) b == Unit(x, root) jb == Dot(J, b) H == Cross(J, b) W == Cross(V(x), B(x))
      E(j, h, u, w) == Minus(Plus(Times(x.eo, j), Plus(Times(x.eh, h), Times(x.ea, Minus(j, Times(jb, u))))), w)
  IN [r |-> E(J.r, H.r, b.r, W.r), f |-> E(J.f, H.f, b.f, W.f), t |-> E(J.t, H.t, b.t, W.t)]
\* the part of E_r which B_phi itself carries
Carried(x, p, t, root) ==
  LET b == Unit(x, root) IN
  Times(x.bf, Plus(Times(t, Plus(x.eo, Times(x.ea, Minus(Const(1), Times(b.r, b.r))))),
                   By(Q(p), Plus(Times(x.eh, b.f), Times(x.ea, Times(b.r, b.t))))))
\* a stationary field has no curl of E; with the radial power law that is E_phi = 0 and this
Induction(x, p, t, root, turned) ==
  LET E == Ohm(x, p, t, root)
      d == IF turned THEN Minus(E.r, By(2, Carried(x, p, t, root))) ELSE E.r
  IN Minus(Diff(d), By(Sb(p.g, Num(3, 4)), E.t))
Scale(x) == Over(Dot(B(x), B(x)), x.rh)      \* what the diffusivities go with

\* ---- one point: the derivatives at it follow from the equations
\* pt: the numbers br bf bt vr vf vt rh eo ea eh, xx (E_r or the derivative of B_phi), tan, root of B^2, th
\* m: eta (do the diffusivities vary), eo ea eh (theirs at the midplane), useE, taylor, vr vf rh (second derivatives at the
\* midplane), given, vt (a derivative of v_th from elsewhere)
Fit(pt) == /\ Ml(pt.root, pt.root) = Ad(Ml(pt.br, pt.br), Ad(Ml(pt.bf, pt.bf), Ml(pt.bt, pt.bt)))
           /\ Positive(pt.root)
At(pt, d) == [br |-> <<pt.br, d.br>>, bf |-> <<pt.bf, d.bf>>, bt |-> <<pt.bt, d.bt>>, vr |-> <<pt.vr, d.vr>>,
              vf |-> <<pt.vf, d.vf>>, vt |-> <<pt.vt, d.vt>>, rh |-> <<pt.rh, d.rh>>, eo |-> <<pt.eo, d.eo>>,
              ea |-> <<pt.ea, d.ea>>, eh |-> <<pt.eh, d.eh>>]
None == [br |-> 0, bf |-> 0, bt |-> 0, vr |-> 0, vf |-> 0, vt |-> 0, rh |-> 0, eo |-> 0, ea |-> 0, eh |-> 0]
\* which numbers the derivatives are
Slopes(pt, p, m, turned) ==
  LET t == Tan(pt.tan)
      \* the induction equation along phi, and the field E_r if that is what is known
      EF(f, r) == Ohm(At(pt, [None EXCEPT !.br = r, !.bf = f]), p, t, pt.root).f[1]
      ER(f, r) == Ohm(At(pt, [None EXCEPT !.br = r, !.bf = f]), p, t, pt.root).r[1]
      BrOf(f) == Zero(LAMBDA r : EF(f, r))
      OfE(f) == Sb(ER(f, BrOf(f)), pt.xx)
      bf == IF m.useE THEN Zero(OfE) ELSE pt.xx
      br == BrOf(bf)
      bt == Zero(LAMBDA u : Solenoid(At(pt, [None EXCEPT !.bt = u]), p, t)[1])
      d1 == [None EXCEPT !.br = br, !.bf = bf, !.bt = bt]
      NR(u) == Radial(At(pt, [d1 EXCEPT !.vr = u]), p, t)[1]
      NF(u) == Azimuthal(At(pt, [d1 EXCEPT !.vf = u]), p, t)[1]
      \* density and v_th change together; without a flow along th, v_th changes as mass conservation says
      NW(u, w) == Mass(At(pt, [d1 EXCEPT !.vt = u, !.rh = w]), p, t)[1]
      RhOf(u) == Zero(LAMBDA w : NW(u, w))
      NT(u) == Polar(At(pt, [d1 EXCEPT !.vt = u, !.rh = RhOf(u)]), p, t)[1]
      vt == IF m.given THEN m.vt ELSE IF pt.vt = 0 THEN Zero(LAMBDA u : NW(u, 0)) ELSE Zero(NT)
      vr == IF m.taylor THEN Ml(pt.th, m.vr) ELSE Zero(NR)
      vf == IF m.taylor THEN Ml(pt.th, m.vf) ELSE Zero(NF)
      rh == IF m.taylor THEN Ml(pt.th, m.rh) ELSE RhOf(vt)
      d2 == [d1 EXCEPT !.vr = vr, !.vf = vf, !.vt = vt, !.rh = rh]
      s == IF m.eta THEN Scale(At(pt, d2))[2] ELSE 0
      d3 == [d2 EXCEPT !.eo = Ml(s, m.eo), !.ea = Ml(s, m.ea), !.eh = Ml(s, m.eh)]
      x == At(pt, d3)
      Next(f, r) == [x EXCEPT !.br = <<pt.br, d3.br, r>>, !.bf = <<pt.bf, d3.bf, f>>]
      Br2(f) == Zero(LAMBDA r : Ohm(Next(f, r), p, t, pt.root).f[2])
      NI(f) == Induction(Next(f, Br2(f)), p, t, pt.root, turned)[1]
      xx == IF m.useE THEN Ml(Sb(p.g, Num(3, 4)), Ohm(x, p, t, pt.root).t[1]) ELSE Ml(2, Zero(NI))
  IN [d |-> [br |-> d3.br, bf |-> d3.bf, bt |-> d3.bt, vr |-> d3.vr, vf |-> d3.vf, vt |-> d3.vt, rh |-> d3.rh, eo |-> d3.eo,
             ea |-> d3.ea, eh |-> d3.eh, xx |-> xx],
      own |-> IF pt.vt = 0 THEN <<>> ELSE <<Zero(NR), Zero(NF), RhOf(vt)>>,      \* without the expansion
      \* no equation is without a solution here
      fine |-> /\ HasZero(LAMBDA r : EF(0, r)) /\ (m.useE => HasZero(OfE))
               /\ pt.rh # 0 /\ (pt.vt = 0 => m.taylor)
               /\ (pt.vt # 0 => HasZero(NT)) /\ (m.useE \/ HasZero(NI))]

\* ---- the midplane: B along th, no flow through it, and the equations fix the rest
MidSlopes(vf, q, p) ==     \* q: vr, eo, ea, eh
  LET t == Tan(0)
      pt == [br |-> 0, bf |-> 0, bt |-> 1, vr |-> q.vr, vf |-> vf, vt |-> 0, rh |-> 1, eo |-> q.eo, ea |-> q.ea, eh |-> q.eh]
      f1 == Zero(LAMBDA f : Azimuthal(At(pt, [None EXCEPT !.bf = f]), p, t)[1])
      r1 == Zero(LAMBDA r : Ohm(At(pt, [None EXCEPT !.br = r, !.bf = f1]), p, t, 1).f[1])
      x == At(pt, [None EXCEPT !.br = r1, !.bf = f1])
  IN [bf |-> f1, err |-> Radial(x, p, t)[1], er |-> Ohm(x, p, t, 1).r[1]]
\* the radial balance is quadratic in the rotation speed; the larger of its zeros is taken
MidBalance(q, p) ==
  LET r0 == MidSlopes(0, q, p).err r1 == MidSlopes(1, q, p).err r2 == MidSlopes(2, q, p).err
      a == Ml(Half, Sb(Ad(r2, r0), Ml(2, r1)))
      b == Sb(Sb(r1, r0), a)
      top == Sb(0, Dv(b, Ml(2, a)))
  IN [top |-> top, sq |-> Sb(Ml(top, top), Dv(r0, a))]
MidFine(q, p) == Ad(q.eo, q.ea) # 0 /\ p.a # 0
MidOK(pt, p, useE) ==      \* the numbers at the midplane
  LET s == MidSlopes(pt.vf, pt, p) IN
  /\ pt.br = 0 /\ pt.bf = 0 /\ pt.bt = 1 /\ pt.vt = 0 /\ pt.rh = 1
  /\ s.err = 0 /\ ~Negative(Sb(pt.vf, MidBalance(pt, p).top))
  /\ pt.xx = IF useE THEN s.er ELSE s.bf
\* the known finding: two of the terms which fix the third derivatives of B_phi and B_r at the midplane are exchanged, each
\* with mistakes of its own (the second derivatives of v_r and v_phi follow from them as they should)
AsFound(c, p) ==
  LET q == Q(p) bu == Unit(c, 1) eP == Ad(c.eo[1], c.ea[1])
      hall == Times(c.eh, bu.t) ambi == Times(c.ea, Times(bu.r, bu.f))
      Cs == Over(Minus(hall, ambi), Plus(c.eo, Times(c.ea, Minus(Const(1), Times(bu.f, bu.f)))))
      Zs == Plus(Plus(c.eo, Times(c.ea, Minus(Const(1), Times(bu.r, bu.r)))), Times(Cs, Plus(hall, ambi)))
      Two(x) == Ml(2, x[3])
      br1 == c.br[2] bf1 == c.bf[2] vt1 == c.vt[2]
      eP2 == Ad(Two(c.eo), Two(c.ea))
      er2 == Ml(Sb(p.g, Num(3, 4)), Ohm(c, p, Tan(0), 1).t[2])
      first == Sb(Dv(Sb(Sb(Sb(Ml(vt1, br1), Ml(c.vr[1], Two(c.bt))),
                           Ml(bf1, Ad(Two(c.eh), Ml(c.eh[1], Ad(Ad(Ml(bu.r[2], q), 1), Two(bu.t)))))),
                        Ml(Sb(eP2, Ml(Ml(2, c.ea[1]), Ml(bu.r[2], bu.r[2]))), Ad(br1, q))), eP),
                  Ml(Two(c.bt), q))
      inner == Ad(Ad(Ad(vt1, eP), Ml(q, Ad(Ml(c.eh[1], bu.f[2]), Ml(c.ea[1], bu.r[2])))),
                  Ml(Cs[1], Sb(Ml(Ml(c.ea[1], bu.f[2]), q), Ml(c.eh[1], Ad(Ml(bu.r[2], q), 1)))))
      second == Sb(0, Dv(Ad(Sb(Ad(Ad(Sb(Ml(Two(Cs), c.vr[1]), Ml(Cs[1], Sb(Ml(vt1, br1), Ml(c.vr[1], Two(c.bt))))), er2),
                                 Ml(c.vf[1], Two(c.bt))), Ml(bf1, inner)), Ml(bf1, Two(Zs))), Zs[1]))
      bf3 == Ml(6, c.bf[4])
  IN /\ bf3 = Sb(first, Dv(Ad(Ml(Cs[1], Two(c.vr)), Two(c.vf)), Zs[1]))
     /\ Ml(6, c.br[4]) = Sb(second, Dv(Ad(Ml(c.eh[1], bf3), Two(c.vr)), eP))
\* c: series (four coefficients) of all quantities and xx about the midplane
ExpansionOK(c, pt, p, m, found) ==
  LET t == Tan(0) E == Ohm(c, p, t, 1) I == Induction(c, p, t, 1, FALSE)
      Fine(s, n) == Vanishes(IF found THEN SubSeq(s, 1, n) ELSE s) IN
  /\ c.br[1] = 0 /\ c.bf[1] = 0 /\ c.bt[1] = 1 /\ c.vt[1] = 0 /\ c.rh[1] = 1
  /\ \A k \in {"vr", "vf", "eo", "ea", "eh", "xx"} : c[k][1] = pt[k]
  /\ Vanishes(Solenoid(c, p, t)) /\ Vanishes(Mass(c, p, t)) /\ Vanishes(Radial(c, p, t)) /\ Vanishes(Azimuthal(c, p, t))
  /\ Vanishes(Polar(c, p, t)) /\ Fine(E.f, 2) /\ Fine(I, 1) /\ (found => AsFound(c, p))
  /\ IF m.useE THEN Fine(Minus(c.xx, E.r), 2) ELSE Vanishes(Minus(c.xx, Diff(c.bf)))
  /\ m.useE => c.xx[2] = 0 /\ Ml(2, c.xx[3]) = Ml(Sb(p.g, Num(3, 4)), E.t[2])
  /\ \A k \in {"eo", "ea", "eh"} : IF m.eta THEN Vanishes(Minus(c[k], By(pt[k], Scale(c)))) ELSE Vanishes(Diff(c[k]))

\* ---- a study: inputs, the midplane, the expansion about it, then any number of points
\* inputs: g, vin, va, ck (speeds over the sound speed, and its ratio to the orbital one), eo, ea, eh, eta, useE
VARIABLES prm, mid, near, ph
vars == <<prm, mid, near, ph>>
InitWith(c) == prm = c /\ mid = <<>> /\ near = <<>> /\ ph = "asked"
ParOf(c) == [g |-> c.g, a |-> Ml(c.va, c.va), k |-> Dv(1, Ml(c.ck, c.ck))]
AskOf(c) == [vr |-> Sb(0, c.vin), eo |-> c.eo, ea |-> c.ea, eh |-> c.eh]
Par == ParOf(prm)
Modes(taylor, given, vt) ==
  [eta |-> prm.eta, useE |-> prm.useE, eo |-> prm.eo, ea |-> prm.ea, eh |-> prm.eh, taylor |-> taylor, given |-> given,
   vt |-> vt] @@ (IF ph = "near" THEN [vr |-> Ml(2, near.vr[3]), vf |-> Ml(2, near.vf[3]), rh |-> Ml(2, near.rh[3])]
                  ELSE [vr |-> 0, vf |-> 0, rh |-> 0])
Midplane(pt, a, k, g) ==
  /\ ph = "asked" /\ MidFine(AskOf(prm), Par) /\ MidOK(pt, Par, prm.useE)
  /\ \A n \in {"vr", "eo", "ea", "eh"} : pt[n] = AskOf(prm)[n]
  /\ a = Par.a /\ k = Par.k /\ g = Par.g
  /\ mid' = pt /\ ph' = "midplane" /\ UNCHANGED <<prm, near>>
\* no rotation balances gravity
Impossible == /\ ph = "asked" /\ MidFine(AskOf(prm), Par) /\ Negative(MidBalance(AskOf(prm), Par).sq)
              /\ ph' = "impossible" /\ UNCHANGED <<prm, mid, near>>
Expand(c) == /\ ph \in {"midplane", "near"} /\ LET m == [eta |-> prm.eta, useE |-> prm.useE]
                                            IN ExpansionOK(c, mid, Par, m, FALSE) \/ (Swapped /\ ExpansionOK(c, mid, Par, m, TRUE))
             /\ near' = c /\ ph' = "near" /\ UNCHANGED <<prm, mid>>
\* the derivatives at a point
SlopesAre(pt, m, d, turned) == LET s == Slopes(pt, Par, m, turned) IN s.fine /\ d = s.d
SlopesFit(pt, m, d) == \/ SlopesAre(pt, m, d, FALSE)
                       \/ Turned /\ ~prm.useE /\ SlopesAre(pt, m, d, TRUE)
Keys == <<"br", "bf", "bt", "vr", "vf", "vt", "rh", "xx", "eo", "ea", "eh">>
Row(pt) == [i \in 1..11 |-> pt[Keys[i]]]
\* what is noted of it, if anything: the angle, the point, its derivatives, and three of these with and without the expansion
Kept(pt, m, d, noted, kept) ==
  IF ~noted THEN kept = <<>>
  ELSE /\ Len(kept) = 1 /\ kept[1].th = pt.th /\ kept[1].pt = Row(pt) /\ kept[1].d = Row(d)
       /\ kept[1].near = <<Ml(pt.th, m.vr), Ml(pt.th, m.vf), Ml(pt.th, m.rh)>>
       /\ pt.vt # 0 => kept[1].own = Slopes(pt, Par, m, FALSE).own
Evaluate(pt, taylor, given, vt, d, noted, kept) ==
  /\ ph = "near" /\ Fit(pt) /\ UNCHANGED vars
  /\ ~Negative(pt.rh) /\ ~Negative(pt.vt)
  /\ LET m == Modes(taylor, given, vt) IN SlopesFit(pt, m, d) /\ Kept(pt, m, d, noted, kept)
\* for a finished solution the derivatives are computed at all its points, whatever they are
Tabulate(rows, d) ==
  /\ ph = "near" /\ UNCHANGED vars /\ Len(d) = Len(rows)
  /\ \A i \in 1..Len(rows) : Fit(rows[i]) /\ SlopesFit(rows[i], Modes(FALSE, FALSE, 0), d[i])
\* a point which cannot be is refused: with its density negative the integrator may try again, with the flow reversed not
Refuse(pt, code, noted, why, changed) ==
  /\ ph = "near" /\ UNCHANGED vars /\ ~changed
  /\ \/ Negative(pt.rh) /\ code > 0 /\ why = IF noted THEN <<"negative density">> ELSE <<>>
     \/ ~Negative(pt.rh) /\ Negative(pt.vt) /\ code < 0 /\ why = IF noted THEN <<"negative velocity">> ELSE <<>>
\* the rate of change of every derivative with every quantity, by a difference of width 2*eps: j[a][b] for derivative a
\* by quantity b, in the order of the keys below
Jacobian(pt, eps, up, down, j) ==
  /\ ph = "near" /\ UNCHANGED vars
  /\ \A b \in 1..11 :
       LET k == Keys[b] hi == [pt EXCEPT ![k] = Ad(@, eps), !.root = up[b]] lo == [pt EXCEPT ![k] = Sb(@, eps), !.root = down[b]]
           Same(turned) == LET h == Slopes(hi, Par, Modes(FALSE, FALSE, 0), turned) w == Slopes(lo, Par, Modes(FALSE, FALSE, 0), turned)
                           IN \A a \in 1..11 : j[a][b] = Dv(Sb(h.d[Keys[a]], w.d[Keys[a]]), Ml(2, eps))
       IN /\ Fit(hi) /\ Fit(lo)
          /\ Same(FALSE) \/ (Turned /\ ~prm.useE /\ Same(TRUE))
\* currents and electric field at a point, (r, th, phi)
Electric(pt, j, e) ==
  /\ Fit(pt) /\ ~prm.useE /\ UNCHANGED vars
  /\ LET x == At(pt, [None EXCEPT !.bf = pt.xx, !.br = Slopes(pt, Par, Modes(FALSE, FALSE, 0), FALSE).d.br])
         t == Tan(pt.tan) J == Curl(x, Par, t) E == Ohm(x, Par, t, pt.root)
     IN j = <<J.r[1], J.t[1], J.f[1]>> /\ e = <<E.r[1], E.t[1], E.f[1]>>
\* these are not available where E_r takes the place of the derivative of B_phi
NotWithE == prm.useE /\ UNCHANGED vars
\* how far numbers and slopes, whatever they are, are from fulfilling the equations; the fields, and as seen by the fluid
Residuals(pt, d, res) ==
  /\ Fit(pt) /\ ~prm.useE /\ UNCHANGED vars
  /\ LET x == At(pt, d) t == Tan(pt.tan) E == Ohm(x, Par, t, pt.root) J == Curl(x, Par, t) W == Cross(V(x), B(x))
     IN res = [continuity |-> Dv(Mass(x, Par, t)[1], pt.rh), solenoid |-> Solenoid(x, Par, t)[1],
               radial |-> Radial(x, Par, t)[1], azimuthal |-> Azimuthal(x, Par, t)[1], polar |-> Polar(x, Par, t)[1],
               induction |-> Sb(0, E.f[1]), zero |-> E.f[1],
               j |-> <<J.r[1], J.t[1], J.f[1]>>, e |-> <<E.r[1], E.t[1]>>,
               still |-> Azimuthal([x EXCEPT !.vt = <<0, 0>>], Par, t)[1],
               torque |-> LET inert == Ml(Half, Ml(pt.vr, pt.vf))
                              still == [x EXCEPT !.br = <<0, 0>>, !.bf = <<0, d.bf>>, !.vt = <<0, 0>>]
                          IN IF inert = 0 THEN -1 ELSE Dv(Azimuthal(still, Par, t)[1], inert),     \* what of the inertia is left
               seen |-> <<Ad(E.r[1], W.r[1]), Ad(E.t[1], W.t[1]), Ad(E.f[1], W.f[1])>>]
\* the radial balance of a slightly non-Keplerian disc at rest, with B_r from the induction equation (for g = 0)
AlmostKepler(pt, d, nk, res) ==
  /\ Fit(pt) /\ prm.g = 0 /\ UNCHANGED vars /\ Ml(nk, nk) = Par.k /\ Positive(nk)
  /\ LET t == Tan(pt.tan)
         at == [pt EXCEPT !.vt = 0]
         r == Zero(LAMBDA u : Ohm(At(at, [None EXCEPT !.br = u, !.bf = d.bf]), Par, t, pt.root).f[1])
         full == Radial(At(at, [None EXCEPT !.br = r, !.bf = d.bf]), Par, t)[1]
         \* v_phi^2 - k is taken as 2*nk*(v_phi - nk)
         away == Sb(Ad(full, Sb(Ml(pt.vf, pt.vf), Par.k)), Ml(Ml(2, nk), Sb(pt.vf, nk)))
     IN res = Dv(away, Ml(2, nk))
\* what makes up the slopes: the parts of each sum, and the whole (times what the slope is multiplied by)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Ad(Head(s), Total(Tail(s)))
Parts(pt, parts, whole) ==
  /\ Fit(pt) /\ ~prm.useE /\ UNCHANGED vars
  /\ LET s == Slopes(pt, Par, Modes(FALSE, FALSE, 0), FALSE).d
     IN whole = [radial |-> Ml(pt.vt, s.vr), azimuthal |-> Ml(pt.vt, s.vf), polar |-> Ml(Sb(1, Ml(pt.vt, pt.vt)), s.vt),
                 continuity |-> Ml(pt.vt, Dv(s.rh, pt.rh)), solenoid |-> s.bt, induction |-> s.br]
  /\ \A k \in DOMAIN whole : Total(parts[k]) = whole[k]
\* the slopes with and without the expansion in one picture: their sizes, or the size of their ratio
Size(a) == IF Negative(a) THEN Sb(0, a) ELSE a
Compared(own, near1, values, shown) ==
  /\ UNCHANGED vars
  /\ shown = IF values THEN <<<<Size(own)>>, <<Size(near1)>>>> ELSE <<<<Size(Dv(own, near1))>>>>
=============================================================================
