------------------------------ MODULE Internal ------------------------------
(* Internal-data records: one entry per evaluation (the same entry in every one of the record's sequences), the Jacobian
   entries the integrator reports separately, and the problems noted per angle.  Names are places a record is kept in. *)
EXTENDS Naturals, Sequences
CONSTANTS Names, Angles
VARIABLES rec, next
vars == <<rec, next>>
Empty == [rows |-> <<>>, jacs |-> <<>>, probs |-> [a \in Angles |-> <<>>], fin |-> FALSE]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Init == rec = [n \in Names |-> Empty] /\ next = 1
Fresh(n) == rec' = [rec EXCEPT ![n] = Empty] /\ UNCHANGED next
Note(n) == ~rec[n].fin /\ rec' = [rec EXCEPT ![n].rows = Append(@, next)] /\ next' = next + 1
NoteJac(n) == ~rec[n].fin /\ rec' = [rec EXCEPT ![n].jacs = Append(@, next)] /\ next' = next + 1
\* problems may be reported one at a time or as a list, and are never replaced
Report(n, a, c) == /\ rec' = [rec EXCEPT ![n].probs[a] = @ \o [i \in 1..c |-> next + i - 1]] /\ next' = next + c
Forget(n, a) == rec[n].probs[a] # <<>> /\ rec' = [rec EXCEPT ![n].probs[a] = <<>>] /\ UNCHANGED next
Finalise(n) == rec' = [rec EXCEPT ![n].fin = TRUE] /\ UNCHANGED next
JoinOf(a, b) == [rows |-> rec[a].rows \o rec[b].rows, jacs |-> rec[a].jacs \o rec[b].jacs,
                 probs |-> [x \in Angles |-> rec[a].probs[x] \o rec[b].probs[x]], fin |-> TRUE]
Join(a, b, c) ==
  /\ rec' = [n \in Names |-> IF n = c THEN JoinOf(a, b) ELSE IF n \in {a, b} THEN [rec[n] EXCEPT !.fin = TRUE] ELSE rec[n]]
  /\ UNCHANGED next
Flip(n) == rec' = [rec EXCEPT ![n].rows = Rev(@), ![n].jacs = Rev(@), ![n].fin = TRUE] /\ UNCHANGED next
Query(n, a) == UNCHANGED vars

FlipTwiceRestores == \A n \in Names : Rev(Rev(rec[n].rows)) = rec[n].rows
EmptyNeutral == \A a, b \in Names : (rec[b].rows = <<>> => JoinOf(a, b).rows = rec[a].rows)
                                    /\ (rec[a].rows = <<>> => JoinOf(a, b).rows = rec[b].rows)
\* an entry is in a record at most once unless the record was joined with itself or a copy: no entry appears from nowhere
NoInventions == \A n \in Names : \A i \in 1..Len(rec[n].rows) : rec[n].rows[i] < next
=============================================================================
