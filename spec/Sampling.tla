------------------------------ MODULE Sampling ------------------------------
(* The sampling search: proposals arrive one by one; each is rejected, or    *)
(* solved, scored and recorded.  The final solution is the recorded one with *)
(* the highest score, the first of these on ties.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"nonpositive",  \* some parameter is not positive: never solved
          "unphysical",   \* no initial conditions exist: never solved
          "fails",        \* the equations cannot be solved
          "unscored",     \* solved, but the score is not finite
          "good"}

VARIABLES recs,     \* recorded proposals, as [prop, score]
          n,        \* proposals so far
          best,     \* index of the best record, 0 if none
          fin,      \* index of the final solution: -1 unset, 0 none
          reply     \* what the sampler was told last: "none", "rejected" or "score"

vars == <<recs, n, best, fin, reply>>

Init == recs = <<>> /\ n = 0 /\ best = 0 /\ fin = -1 /\ reply = "none"

(* is the equation solver consulted for such a proposal? *)
Solves(kind) == kind \in {"fails", "unscored", "good"}

Propose(kind, score) ==
  /\ fin = -1
  /\ n' = n + 1
  /\ IF kind = "good"
     THEN /\ recs' = Append(recs, [prop |-> n + 1, score |-> score])
          /\ best' = IF best = 0 \/ score > recs[best].score THEN Len(recs) + 1 ELSE best
          /\ reply' = "score"
     ELSE UNCHANGED <<recs, best>> /\ reply' = "rejected"
  /\ UNCHANGED fin

Finish == fin = -1 /\ fin' = best /\ UNCHANGED <<recs, n, best, reply>>

-----------------------------------------------------------------------------
FinalIsBest == fin > 0 => /\ \A i \in 1..Len(recs) : recs[i].score <= recs[fin].score
                          /\ \A i \in 1..(fin - 1) : recs[i].score < recs[fin].score
NoneIffEmpty == fin # -1 => (fin = 0 <=> recs = <<>>)
Increasing == \A i \in 1..(Len(recs) - 1) : recs[i].prop < recs[i + 1].prop
Kept == [][\A i \in 1..Len(recs) : recs'[i] = recs[i]]_vars
=============================================================================
