------------------------------ MODULE SonicRoot ------------------------------
(* Matching from the sonic point: one solution from the midplane, then one   *)
(* trial per guess of the root finder.  Solutions are sequences of row       *)
(* tokens; a trial's rows run from the sonic point towards the midplane.     *)
EXTENDS Integers, Sequences, TLC

VARIABLES mid,      \* the midplane solution
          recs,     \* recorded solutions
          reply,    \* what the root finder was told last
          fin,      \* index of the final solution, -1 unset
          ok,       \* reported success
          ph        \* "begin", "trials", "done"

vars == <<mid, recs, reply, fin, ok, ph>>

(* a solution: rows, flag, whether internal data was kept, and its entries *)
NoSoln == [rows |-> <<>>, flag |-> 0, int |-> FALSE, irows |-> <<>>]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Init == mid = NoSoln /\ recs = <<>> /\ reply = "none" /\ fin = -1 /\ ok = FALSE /\ ph = "begin"

Midplane(s) == /\ ph = "begin" /\ mid' = s /\ recs' = <<s>> /\ ph' = "trials"
               /\ UNCHANGED <<reply, fin, ok>>
(* the midplane part, then the sonic part reversed, with the trial's end flag *)
Joined(s) == [rows  |-> mid.rows \o Reverse(s.rows),
              flag  |-> s.flag,
              int   |-> mid.int \/ s.int,
              irows |-> mid.irows \o Reverse(s.irows)]
Trial(s, matches) == /\ ph = "trials" /\ recs' = Append(recs, Joined(s))
                     /\ reply' = IF matches THEN "zero" ELSE "residual"
                     /\ UNCHANGED <<mid, fin, ok, ph>>
BadTrial == ph = "trials" /\ reply' = "error" /\ UNCHANGED <<mid, recs, fin, ok, ph>>
Finish(converged) == /\ ph = "trials" /\ ph' = "done" /\ ok' = converged /\ fin' = Len(recs)
                     /\ UNCHANGED <<mid, recs, reply>>

-----------------------------------------------------------------------------
MidFirst == recs # <<>> => recs[1] = mid
MidKept == \A i \in 1..Len(recs) : SubSeq(recs[i].rows, 1, Len(mid.rows)) = mid.rows
                                   /\ SubSeq(recs[i].irows, 1, Len(mid.irows)) = mid.irows
FinalIsLast == ph = "done" => fin = Len(recs) /\ fin > 0
RecordsKept == [][\A i \in 1..Len(recs) : recs'[i] = recs[i]]_vars
=============================================================================
