------------------------------- MODULE Critical -------------------------------
(* Where a flow first reaches each of the slow, sonic, Alfven and fast speeds.  A point of the flow has a polar velocity
   and the slow and fast speeds there (in sound speeds; the Alfven speed is their product), all fractions <<n, d>>, or no
   numbers at all (nan).  Points are one unit of angle apart. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES flow
vars == <<flow>>
Waves == {"slow", "sonic", "alfven", "fast"}
Abs(a) == IF a < 0 THEN -a ELSE a
Speed(p, w) == CASE w = "slow" -> p.slow [] w = "fast" -> p.fast [] w = "sonic" -> <<1, 1>>
                 [] OTHER -> <<p.slow[1] * p.fast[1], p.slow[2] * p.fast[2]>>
\* the flow's speed as far as this wave is concerned (the sonic Mach number keeps its sign)
V(p, w) == IF w = "sonic" THEN p.v ELSE <<Abs(p.v[1]), p.v[2]>>
\* Mach number below (-1), at (0), above (1) one; nan: 2
Side(p, w) == IF p.nan THEN 2 ELSE LET v == V(p, w) s == Speed(p, w) a == v[1] * s[2] b == s[1] * v[2] IN
              IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1
S(i, w) == Side(flow[i], w)
N == Len(flow)
Points(w) == {i \in 1..N : S(i, w) # 2}
First(w) == CHOOSE i \in Points(w) : \A k \in Points(w) : i <= k
Exceeds(w) == \E i \in 1..N : S(i, w) = 1
\* points at which the Mach number has come to one or passed it, from the side on which it started
Beyond(w) == LET f == S(First(w), w) IN {i \in Points(w) : S(i, w) = 0 \/ (f = -1 /\ S(i, w) = 1) \/ (f = 1 /\ S(i, w) = -1) \/ (f = 0 /\ i = First(w))}
Crosses(w) == Points(w) # {} /\ Beyond(w) # {}
At(w) == CHOOSE i \in Beyond(w) : \A k \in Beyond(w) : i <= k
Reported(w) == Crosses(w) /\ Exceeds(w)
\* whether the points either side of the crossing are both known
Known(w) == S(At(w), w) = 0 \/ (At(w) > 1 /\ S(At(w) - 1, w) # 2)
\* position of an angle on the grid: 2i at point i, 2i + 1 strictly between points i and i + 1, -1 none
Place(w) == IF ~Reported(w) THEN -1 ELSE IF S(At(w), w) = 0 THEN 2 * At(w) ELSE 2 * At(w) - 1
Highest == IF Reported("fast") THEN "fast" ELSE IF Reported("alfven") THEN "alfven" ELSE IF Reported("sonic") THEN "sonic"
           ELSE IF Reported("slow") THEN "slow" ELSE "none"
InitWith(f) == flow = f
\* sanity of the definitions
OrderedSpeeds == \A i \in 1..N : flow[i].slow[1] <= flow[i].slow[2] /\ flow[i].fast[1] >= flow[i].fast[2]
SlowFirst == \A w \in Waves : (~flow[1].nan /\ S(1, "slow") = -1 /\ Reported(w) /\ \A i \in 1..N : flow[i].nan \/ flow[i].v[1] >= 0) =>
                (Reported("slow") => At("slow") <= At(w))
NotBefore == \A w \in Waves : (Crosses(w) /\ S(First(w), w) = -1) => \A k \in 1..At(w)-1 : S(k, w) \in {-1, 2}
=============================================================================
