------------------------------ MODULE FastCross ------------------------------
(* The fast-point search over the inflow speed x (in units, two limbs).      *)
(* Every attempt reaches some quality (how far the solution got; 0 if the    *)
(* attempt yielded no solution).  The search walks up while that improves,   *)
(* walks down from the start while that improves, and then refines strictly  *)
(* inside the bracket found, keeping the better part of it each time.        *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Start, Step,   \* limbs
          Tiny           \* brackets at most this wide (low limb) may not be refined any further

VARIABLES maxAttempts,
          ph,            \* "start", "up", "down", "probe" (before the first inner point), "refine", "done"
          x,             \* inflow speed of the next attempt
          lo, loq, hi, hiq, mid, midq,
          n,             \* attempts made
          found,         \* attempts that yielded a solution
          out

vars == <<maxAttempts, ph, x, lo, loq, hi, hiq, mid, midq, n, found, out>>

B == 67108864 \* 2^26
Norm(h, l) == <<h + (l \div B), l % B>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == a = b \/ Lt(a, b)

NoLimb == <<0, 0>>
Init == /\ ph = "start" /\ x = Start /\ lo = NoLimb /\ hi = NoLimb /\ mid = NoLimb
        /\ loq = 0 /\ hiq = 0 /\ midq = 0 /\ n = 0 /\ found = 0 /\ out = "running"

Narrow(a, b) == LET d == Minus(b, a) IN d[1] = 0 /\ d[2] <= Tiny
Inside(y, a, b) == IF Narrow(a, b) THEN Le(a, y) /\ Le(y, b) ELSE Lt(a, y) /\ Lt(y, b)

(* what the search knows after an attempt of quality q: the bracket, and which points it may try next *)
Better(q) ==  \* the bracket after a refinement at x
  LET xlow == Lt(x, mid)
      l == IF xlow THEN x ELSE mid     lq == IF xlow THEN q ELSE midq
      h == IF xlow THEN mid ELSE x     hq == IF xlow THEN midq ELSE q
  IN IF lq > hq THEN [lo |-> lo, loq |-> loq, mid |-> l, midq |-> lq, hi |-> h, hiq |-> hq]
                ELSE [lo |-> l, loq |-> lq, mid |-> h, midq |-> hq, hi |-> hi, hiq |-> hiq]

Stop(how) == ph' = "done" /\ out' = how
Go(phase, y) == IF n + 1 >= maxAttempts THEN Stop("exhausted") /\ UNCHANGED x
                ELSE ph' = phase /\ x' = y /\ UNCHANGED out
GoInside(phase, y, a, b) == Go(phase, y) /\ (ph' = phase => Inside(y, a, b))

(* y: the next point, for the refinements *)
Attempt(q, ok, y) ==
  /\ ph # "done" /\ n' = n + 1 /\ found' = found + (IF ok THEN 1 ELSE 0) /\ UNCHANGED maxAttempts
  /\ CASE ph = "start" ->
            /\ lo' = x /\ hi' = x /\ loq' = q /\ hiq' = q /\ UNCHANGED <<mid, midq>>
            /\ Go("up", Plus(x, Step))
       [] ph = "up" ->
            /\ UNCHANGED <<lo, loq, mid, midq>>
            /\ IF q > hiq THEN hi' = x /\ hiq' = q /\ Go("up", Plus(x, Step))
                          ELSE UNCHANGED <<hi, hiq>> /\ Go("down", Minus(lo, Step))
       [] ph = "down" ->
            /\ UNCHANGED <<hi, hiq, mid, midq>>
            /\ IF q > loq THEN lo' = x /\ loq' = q /\ Go("down", Minus(x, Step))
               ELSE /\ UNCHANGED <<lo, loq>>
                    /\ IF lo = hi THEN Stop("nowhere") /\ UNCHANGED x
                       ELSE GoInside("probe", y, lo, hi)
       [] ph = "probe" ->
            /\ mid' = x /\ midq' = q /\ UNCHANGED <<lo, loq, hi, hiq>>
            /\ GoInside("refine", y, lo, hi)
       [] ph = "refine" ->
            LET b == Better(q) IN
            /\ lo' = b.lo /\ loq' = b.loq /\ mid' = b.mid /\ midq' = b.midq /\ hi' = b.hi /\ hiq' = b.hiq
            /\ IF y = x /\ n + 1 < maxAttempts
               THEN Narrow(b.lo, b.hi) /\ Stop("limit") /\ UNCHANGED x
               ELSE GoInside("refine", y, b.lo, b.hi)

-----------------------------------------------------------------------------
Ordered == ph \in {"probe", "refine"} => Lt(lo, hi)
MidInside == ph = "refine" => Le(lo, mid) /\ Le(mid, hi)
Anchored == ph \in {"up", "down"} => Le(lo, Start) /\ Le(Start, hi)
Bounded == n <= maxAttempts
Shrinks == [][(ph \in {"probe", "refine"}) => Le(lo, lo') /\ Le(hi', hi)]_vars
(* refinement never discards the best inner point known *)
KeepsBest == [][ph = "refine" => midq' >= midq]_vars
FoundGrows == [][found' >= found]_vars
Terminates == <>(ph = "done")
=============================================================================
