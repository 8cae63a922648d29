-------------------------------- MODULE Batch --------------------------------
(* A batch run over inputs 1..n: tasks are started in input order by any of w workers, finish in any order, and their
   results are taken in input order by the collecting process, which writes one row per success (to CSV) or reports the
   failures (result files).  What a task does is scripted: plan[i].sols solutions are recorded, then it ends as how. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES plan, w, done, taken, rows, reported, ph
vars == <<plan, w, done, taken, rows, reported, ph>>
\* found: a final solution was chosen, nothing: success claimed but the final solution is none, failed: no success,
\* failedfinal: no success though a final solution was chosen, failedleft: no success and no word on which is final (the
\* last recorded one then is), error: the solver gave up with an error
Hows == {"found", "nothing", "failed", "failedfinal", "failedleft", "error"}
N == Len(plan)
InitWith(p, k) == plan = p /\ w = k /\ done = {} /\ taken = 0 /\ rows = <<>> /\ reported = {} /\ ph = "run"
Do(i) == /\ ph = "run" /\ i \in (1..N) \ done
         /\ Cardinality((1..i-1) \ done) < w
         /\ done' = done \cup {i} /\ UNCHANGED <<plan, w, taken, rows, reported, ph>>
Take == /\ ph = "run" /\ taken < N /\ taken + 1 \in done
        /\ taken' = taken + 1
        /\ rows' = IF plan[taken + 1].how = "found" THEN Append(rows, taken + 1) ELSE rows
        /\ reported' = IF plan[taken + 1].how \in {"failed", "failedfinal", "failedleft", "error"} THEN reported \cup {taken + 1} ELSE reported
        /\ UNCHANGED <<plan, w, done, ph>>
Finish == ph = "run" /\ taken = N /\ ph' = "done" /\ UNCHANGED <<plan, w, done, taken, rows, reported>>

\* the result file of input i once its task is over: solutions recorded, which one is final (0: none, -: not written)
File(i) == [id |-> i, sols |-> plan[i].sols, closed |-> plan[i].how # "error",
            fin |-> IF plan[i].how \in {"found", "failedfinal"} THEN plan[i].fin
                   ELSE IF plan[i].how = "failedleft" THEN plan[i].sols ELSE 0]
Successes == SelectSeq([i \in 1..N |-> i], LAMBDA i : plan[i].how = "found")
Ordered == \A i \in 1..Len(rows)-1 : rows[i] < rows[i+1]
RowsArePrefix == Len(rows) <= Len(Successes) /\ rows = SubSeq(Successes, 1, Len(rows))
AllAtEnd == ph = "done" => rows = Successes /\ done = 1..N
NeverAhead == taken <= Cardinality(done) /\ \A i \in 1..taken : i \in done
RowsOnlyGrow == [][Len(rows') >= Len(rows) /\ SubSeq(rows', 1, Len(rows)) = rows]_vars
=============================================================================
