------------------------------ MODULE Stepper ------------------------------
(* The stepping search: walk the exponent parameter g by a full step until  *)
(* the type of solution changes, then halve the step at every attempt.      *)
(* g is an exact number of units in the last place, held in two limbs (so   *)
(* that double precision fits TLC's integers); the step is 2^(E0 - halved)  *)
(* units, and adding less than a unit rounds to nearest, ties to even.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS E0        \* the full step is 2^E0 units and the search starts at ten full steps (but see G0)

VARIABLES maxAttempts, maxSearch,   \* configuration of this search
          g, halved,                \* parameter of the next attempt; halvings so far (step = 2^(E0 - halved))
          ph,                       \* "search", "bisect" or "done"
          first,                    \* type of the first solution
          n, searched,              \* attempts made, attempts made while searching
          rec,                      \* parameters of the recorded solutions, in order
          types,                    \* their types
          fin,                      \* index of the final solution, 0 = explicitly none, -1 = unset
          out                       \* how the search ended

vars == <<maxAttempts, maxSearch, g, halved, ph, first, n, searched, rec, types, fin, out>>

B == 33554432 \* 2^25
Pow2(k) == 2^k
Norm(hi, lo) == <<hi + (lo \div B), lo % B>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Neg(a) == Norm(-a[1], -a[2])
Units(m) == IF m >= 25 THEN <<Pow2(m - 25), 0>> ELSE <<0, Pow2(m)>>
Times10(a) == Norm(10 * a[1], 10 * a[2])
(* a search starting at zero has steps of size zero (E0 = 0): only rounding moves the parameter *)
G0 == IF E0 = 0 THEN <<0, 0>> ELSE Times10(Units(E0))

(* x plus or minus the step, correctly rounded *)
Moved(x, sign, h) ==
  LET m == E0 - h IN
  CASE E0 = 0  -> x
    [] m >= 0  -> IF sign > 0 THEN Plus(x, Units(m)) ELSE Plus(x, Neg(Units(m)))
    [] m = -1  -> IF x[2] % 2 = 0 THEN x ELSE IF sign > 0 THEN Plus(x, <<0, 1>>) ELSE Plus(x, Neg(<<0, 1>>))
    [] OTHER   -> x

Types == {"flip", "diverge", "stop", "best"}

(* the two limits are configuration: whoever uses this module gives them *)
Init == /\ g = G0 /\ halved = 0 /\ ph = "search" /\ first = "-" /\ n = 0 /\ searched = 0
        /\ rec = <<>> /\ types = <<>> /\ fin = -1 /\ out = "running"

Running == ph # "done"

End(how, f) == ph' = "done" /\ out' = how /\ fin' = f /\ UNCHANGED <<g, halved>>

(* the parameter for the next attempt, or the end of the search *)
Move(t, h, phase) ==
  LET up == Moved(g, 1, h)  down == Moved(g, -1, h) IN
  CASE t = "stop" -> End("stopped", Len(rec) + 1)
    [] t = "diverge" /\ down = g -> End("limit", Len(rec) + 1)
    [] OTHER -> IF n + 1 >= maxAttempts THEN ph' = "done" /\ out' = "exhausted" /\ fin' = 0 /\ UNCHANGED <<g, halved>>
                ELSE /\ ph' = phase /\ halved' = h
                     /\ g' = IF t = "diverge" THEN down
                             ELSE IF up = g THEN Plus(g, <<0, 1>>)   \* the next larger number
                             ELSE up
                     /\ UNCHANGED <<out, fin>>

Attempt(t) ==
  /\ Running /\ n < maxAttempts
  /\ n' = n + 1 /\ rec' = Append(rec, g) /\ types' = Append(types, t)
  /\ UNCHANGED <<maxAttempts, maxSearch>>
  /\ IF t = "best" THEN End("best", Len(rec) + 1) /\ UNCHANGED <<first, searched>>
     ELSE IF ph = "search"
     THEN /\ searched' = searched + 1
          /\ IF searched + 1 > maxSearch THEN End("gaveup", 0) /\ UNCHANGED first
             ELSE IF first = "-" THEN first' = t /\ Move(t, halved, "search")
             ELSE /\ UNCHANGED first
                  /\ IF t # first THEN Move(t, halved + 1, "bisect") ELSE Move(t, halved, "search")
     ELSE UNCHANGED <<first, searched>> /\ Move(t, halved + 1, "bisect")

(* the equations could not be solved at all: the run is aborted *)
Fail == /\ Running /\ n < maxAttempts
        /\ n' = n + 1 /\ ph' = "done" /\ out' = "error"
        /\ UNCHANGED <<maxAttempts, maxSearch, g, halved, first, searched, rec, types, fin>>

Next == (\E t \in Types : Attempt(t)) \/ Fail

-----------------------------------------------------------------------------
Succeeded == out \in {"best", "stopped", "limit"}

LastOf(t) == CHOOSE i \in 1..Len(types) : types[i] = t /\ \A j \in 1..Len(types) : types[j] = t => j <= i
HasBoth == \E i, j \in 1..Len(types) : types[i] = "flip" /\ types[j] = "diverge"

(* while bisecting (above rounding) the next attempt is the midpoint of the last points of either type *)
Bracketed == ph = "bisect" /\ E0 - halved >= 0 /\ HasBoth =>
   LET a == rec[LastOf("flip")]  b == rec[LastOf("diverge")] IN
   /\ g = Plus(a, Units(E0 - halved)) /\ b = Plus(g, Units(E0 - halved))
(* searching moves by full steps in one direction only *)
Walking == ph = "search" => \A i \in 1..Len(types) : types[i] = first
AttemptsBounded == n <= maxAttempts /\ searched <= maxSearch + 1
FinalIsLast == Succeeded => fin = Len(rec) /\ types[fin] \in {"best", "stop", "diverge"}
FailureHasNone == out \in {"gaveup", "exhausted"} => fin = 0
RecordsKept == [][Len(rec') >= Len(rec) /\ \A i \in 1..Len(rec) : rec'[i] = rec[i]]_vars
HalvedGrows == [][halved' >= halved /\ (ph = "bisect" /\ ph' = "bisect" => halved' = halved + 1)]_vars
Terminates == <>(ph = "done")
=============================================================================
