------------------------------ MODULE Classify ------------------------------
(* How one attempt of the stepping search is judged.  A profile is built     *)
(* point by point, then judged once: accepted as best, or else given the     *)
(* type that decides where the search goes next.                             *)
(* Polar velocities are in 64ths of the sound speed.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Sonic, Cutoff      \* 64, and the largest value that is not near-sonic (57: 0.9 = 57.6/64)

VARIABLES flag,      \* how the integrator ended: "success", "root" or "failed"
          v,         \* polar velocities along the solution
          neg,       \* some density is negative
          internal,  \* internal data was kept
          problem,   \* problems recorded there: subset of {"negative", "other"}
          dv,        \* derivatives of the polar velocity recorded there
          verdict    \* "-" until judged; then "best", "flip" or "diverge"

vars == <<flag, v, neg, internal, problem, dv, verdict>>

Diff(s) == [i \in 1..(Len(s) - 1) |-> s[i + 1] - s[i]]
Diff2(s) == IF Len(s) < 3 THEN <<>> ELSE Diff(Diff(s))
AnyPos(s) == \E i \in 1..Len(s) : s[i] > 0
AnyNeg(s) == \E i \in 1..Len(s) : s[i] < 0
IsNear(x) == x > Cutoff /\ x < Sonic
Near(s) == SelectSeq(s, IsNear)

Valid == /\ flag = "success" /\ ~neg
         /\ ~AnyNeg(v) /\ ~AnyNeg(Diff(v))
Best == Valid /\ Len(Near(v)) > 0 /\ ~AnyPos(Diff2(Near(v)))

Type ==
  CASE internal /\ "negative" \in problem -> "flip"
    [] internal /\ AnyPos(Diff2(dv))      -> "diverge"
    [] internal /\ AnyNeg(Diff(dv))       -> "flip"
    [] Near(v) = <<>>                     -> "flip"
    [] \E i \in 1..Len(v) : v[i] > Sonic  -> "diverge"
    [] ~AnyNeg(Diff(Near(v)))             -> "diverge"
    [] OTHER                              -> "flip"

Blank == /\ flag = "success" /\ v = <<>> /\ neg = FALSE /\ internal = FALSE
         /\ problem = {} /\ dv = <<>> /\ verdict = "-"

AddPoint(x) == verdict = "-" /\ v' = Append(v, x) /\ UNCHANGED <<flag, neg, internal, problem, dv, verdict>>
AddDeriv(x) == verdict = "-" /\ internal /\ dv' = Append(dv, x)
               /\ UNCHANGED <<flag, v, neg, internal, problem, verdict>>
Judge == /\ verdict = "-" /\ Len(v) > 0 /\ (internal => Len(dv) > 0)
         /\ verdict' = (IF Best THEN "best" ELSE Type)
         /\ UNCHANGED <<flag, v, neg, internal, problem, dv>>

-----------------------------------------------------------------------------
BestIsSound == verdict = "best" =>
   /\ flag = "success" /\ ~neg
   /\ \A i \in 1..Len(v) : v[i] >= 0 /\ (i > 1 => v[i] >= v[i - 1])
   /\ \E i \in 1..Len(v) : IsNear(v[i])
NegativeIsFlip == verdict # "-" /\ internal /\ "negative" \in problem => verdict \in {"best", "flip"}
SlowIsFlip == verdict # "-" /\ ~internal /\ ~(\E i \in 1..Len(v) : IsNear(v[i])) => verdict = "flip"
FastDiverges == verdict # "-" /\ ~internal /\ (\E i \in 1..Len(v) : IsNear(v[i])) /\ (\E i \in 1..Len(v) : v[i] > Sonic)
                => verdict \in {"best", "diverge"}
JudgedOnce == [][verdict # "-" => verdict' = verdict]_vars
=============================================================================
