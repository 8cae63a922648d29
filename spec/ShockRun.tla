------------------------------- MODULE ShockRun -------------------------------
(* The search for shocks: a profile of polar velocities (as levels relative to the limits) over increasing angles (as
   sides of the minimum angle) gives the candidates; workers try each once, in any order; every candidate with a usable
   solution leaves its own result file, whatever happens to the others. *)
EXTENDS Integers, Sequences, FiniteSets
\* velocity levels: 1 below the lower limit, 2 at it, 3 to 5 between the limits, 6 at the upper limit, 7 above; 0 not a number
\* angle sides: 1 below the minimum angle, 2 at it, 3 beyond it
Levels == 0..7
VARIABLES prof, side, postmax, outcome, w, done, files, ph
vars == <<prof, side, postmax, outcome, w, done, files, ph>>
N == Len(prof)
Numbers == {i \in 1..N : prof[i] # 0}
Peaks == {i \in Numbers : \A k \in Numbers : prof[k] <= prof[i]}
Between(i) == prof[i] \in 3..5
Candidates == {i \in 1..N : Between(i) /\ side[i] = 3 /\ (postmax => \A p \in Peaks : i > p)}
\* where the maximum is reached more than once, candidates between its occurrences may or may not be tried
Doubtful == {i \in 1..N : Between(i) /\ side[i] = 3 /\ postmax /\ (\E p \in Peaks : i > p)} \ Candidates

\* outcomes of trying a candidate: ok, short (fewer than five angles), error (solver gives up), unsaveable, noplot
Outcomes == {"ok", "short", "error", "unsaveable", "noplot"}
Usable(i) == outcome[i] \in {"ok", "noplot"}
\* the k-th task is the k-th candidate
CandAt(k) == CHOOSE i \in Candidates : Cardinality({j \in Candidates : j <= i}) = k
InitWith(p, s, m, o, k) == /\ prof = p /\ side = s /\ postmax = m /\ outcome = o /\ w = k
                           /\ done = {} /\ files = {} /\ ph = "run"
Try(i) == /\ ph = "run" /\ i \in Candidates \ done
          /\ Cardinality({j \in Candidates \ done : j < i}) < w
          /\ done' = done \cup {i}
          /\ files' = IF Usable(i) THEN files \cup {i} ELSE files
          /\ UNCHANGED <<prof, side, postmax, outcome, w, ph>>
Finish == ph = "run" /\ done = Candidates /\ ph' = "done" /\ UNCHANGED <<prof, side, postmax, outcome, w, done, files>>

FilesAreUsable == files = {i \in done : Usable(i)}
AllTried == ph = "done" => files = {i \in Candidates : Usable(i)}
OnlyCandidates == done \subseteq Candidates
Strict == \A i \in Candidates : prof[i] > 2 /\ prof[i] < 6
AfterPeak == postmax => \A i \in Candidates : \E k \in 1..i-1 : prof[k] > prof[i] \/ (prof[k] = prof[i] /\ k < i)
FilesOnlyGrow == [][files \subseteq files']_vars
=============================================================================
