-------------------------------- MODULE Shock --------------------------------
(* An isothermal shock: of the state before it, the polar velocity (in sound speeds) becomes its reciprocal, the density
   grows by the square of the velocity, and nothing else changes.  The state after the shock is integrated on, over the
   angles from the shock on.  Velocities and densities are reduced fractions <<n, d>>, d > 0. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES pre,      \* [v, rho, rest, j, n]: state before, j-th of the n angles
          post,     \* [v, rho, rest] now
          jumps,    \* jumps applied so far
          span      \* angles the integration was given: [] before
vars == <<pre, post, jumps, span>>
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET g == Gcd(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * d) \div g>>
Times(a, b) == LET x == Norm(a[1], b[2]) y == Norm(b[1], a[2]) IN Norm(x[1] * y[1], x[2] * y[2])
Plus(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Inverse(a) == Norm(a[2], a[1])
JumpV(v) == Inverse(v)
JumpRho(v, rho) == Times(rho, Times(v, v))

InitWith(p) == pre = p /\ post = [v |-> p.v, rho |-> p.rho, rest |-> p.rest] /\ jumps = 0 /\ span = <<>>
Jump == /\ span = <<>> /\ jumps < 2
        /\ post' = [v |-> JumpV(post.v), rho |-> JumpRho(post.v, post.rho), rest |-> post.rest]
        /\ jumps' = jumps + 1 /\ UNCHANGED <<pre, span>>
Remaining == [i \in 1..pre.n-pre.j+1 |-> pre.j + i - 1]
Integrate == jumps = 1 /\ span = <<>> /\ span' = Remaining /\ UNCHANGED <<pre, post, jumps>>

Flux(s) == Times(s.rho, s.v)
Momentum(s) == Times(s.rho, Plus(Times(s.v, s.v), <<1, 1>>))
MassFlux == Flux(post) = Flux(pre)
MomentumFlux == Momentum(post) = Momentum(pre)
Slower == (jumps = 1 /\ pre.v[1] > pre.v[2]) => (post.v[1] < post.v[2] /\ post.v[1] > 0)
Compressed == (jumps = 1 /\ pre.v[1] > pre.v[2]) => Times(post.rho, Inverse(pre.rho))[1] > Times(post.rho, Inverse(pre.rho))[2]
TwiceRestores == jumps = 2 => (post.v = pre.v /\ post.rho = pre.rho)
RestUnchanged == post.rest = pre.rest
FromTheShockOn == span # <<>> => (span[1] = pre.j /\ span[Len(span)] = pre.n)
=============================================================================
