-------------------------------- MODULE Coord --------------------------------
(* Converting a state of the flow from spherical form at some angle to cylindrical form at constant cylindrical radius:
   first every variable is scaled to the new radius r = q^2 by its own power of it, then the poloidal components are
   rotated by the angle (cosine c, sine s).  Everything is a reduced fraction <<n, d>>; g4 is four times gamma. *)
EXTENDS Integers, Sequences
VARIABLES in, now, ph
vars == <<in, now, ph>>
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == IF n = 0 THEN <<0, 1>> ELSE
              LET g == Gcd(Abs(n), Abs(d)) IN IF d < 0 THEN <<(-n) \div g, (-d) \div g>> ELSE <<n \div g, d \div g>>
Times(a, b) == LET x == Norm(a[1], b[2]) y == Norm(b[1], a[2]) IN Norm(x[1] * y[1], x[2] * y[2])
Plus(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Minus(a, b) == Plus(a, <<-b[1], b[2]>>)
RECURSIVE Power(_, _)
Power(a, k) == IF k = 0 THEN <<1, 1>> ELSE IF k > 0 THEN Times(a, Power(a, k - 1)) ELSE Times(<<a[2], a[1]>>, Power(a, k + 1))

Velocities == {"v_r", "v_phi", "v_th"}
Fields == {"B_r", "B_phi", "B_th", "B_prime"}
Diffusion == {"eta_O", "eta_A", "eta_H"}
Variables == Velocities \cup Fields \cup Diffusion \cup {"rho"}
\* the power of q = sqrt(r) a variable scales with: r^(-1/2), r^(gamma - 5/4), r^(2 gamma - 3/2), r^(1/2)
Exponent(x, g4) == CASE x \in Velocities -> -1 [] x \in Fields -> (g4 - 5) \div 2 [] x = "rho" -> g4 - 3 [] OTHER -> 1
InitWith(i) == in = i /\ now = i.x /\ ph = "spherical"
Scale == /\ ph = "spherical" /\ ph' = "vertical" /\ UNCHANGED in
         /\ now' = [x \in Variables |-> Times(now[x], Power(in.q, Exponent(x, in.g4)))]
RotR(a, b) == Minus(Times(a, in.c), Times(b, in.s))
RotZ(a, b) == Plus(Times(b, in.c), Times(a, in.s))
\* afterwards v_r, v_th, B_r, B_th stand for the components along R and z
Rotate == /\ ph = "vertical" /\ ph' = "cylindrical" /\ UNCHANGED in
          /\ now' = [now EXCEPT !["v_r"] = RotR(now["v_r"], now["v_th"]), !["v_th"] = RotZ(now["v_r"], now["v_th"]),
                                !["B_r"] = RotR(now["B_r"], now["B_th"]), !["B_th"] = RotZ(now["B_r"], now["B_th"])]
Sq(a) == Times(a, a)
Size(f, x, y) == Plus(Sq(f[x]), Sq(f[y]))
\* the size of the poloidal velocity and field is what it was, up to the scaling
VelocityKept == Size(now, "v_r", "v_th") = Times(Size(in.x, "v_r", "v_th"), IF ph = "spherical" THEN <<1, 1>> ELSE Power(in.q, -2))
FieldKept == Size(now, "B_r", "B_th") = Times(Size(in.x, "B_r", "B_th"), IF ph = "spherical" THEN <<1, 1>> ELSE Power(in.q, in.g4 - 5))
Cross(f) == Minus(Times(f["v_r"], f["B_th"]), Times(f["v_th"], f["B_r"]))
\* and the angle between them too
FrozenAngle == Cross(now) = Times(Cross(in.x), IF ph = "spherical" THEN <<1, 1>> ELSE Power(in.q, ((in.g4 - 5) \div 2) - 1))
MidplaneKept == (in.s = <<0, 1>> /\ in.q = <<1, 1>>) => now = in.x
OthersOnlyScale == ph = "cylindrical" => \A x \in Variables \ {"v_r", "v_th", "B_r", "B_th"} :
                      now[x] = Times(in.x[x], Power(in.q, Exponent(x, in.g4)))
=============================================================================
