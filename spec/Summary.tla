------------------------------- MODULE Summary -------------------------------
(* The rows a summary of many result files consists of.  Each file in turn gives a row for each of its numbered solutions
   0..n-1 (in any order), then one for its final solution if it has one; files which cannot be read (n = -1) give none, nor
   do, in a statistics summary, the solutions whose statistics cannot be computed (bad). *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES files, cur, done, rows
vars == <<files, cur, done, rows>>
Final == 100
InitWith(f) == files = f /\ cur = 0 /\ done = {} /\ rows = <<>>
Bad(f) == {f.bad[i] : i \in 1..Len(f.bad)}
Due(f) == IF f.n = -1 THEN {} ELSE ((0..f.n-1) \cup (IF f.fin THEN {Final} ELSE {})) \ Bad(f)
Complete == IF cur = 0 THEN TRUE ELSE done = Due(files[cur])
Row(name, k) ==
  /\ \/ cur > 0 /\ files[cur].name = name /\ k \in Due(files[cur]) \ done /\ cur' = cur /\ done' = done \cup {k}
     \/ /\ Complete
        /\ \E i \in cur+1..Len(files) :
             /\ files[i].name = name /\ k \in Due(files[i])
             /\ \A j \in cur+1..i-1 : Due(files[j]) = {}
             /\ cur' = i /\ done' = {k}
  /\ (k = Final) => (Due(files[cur']) \ done' = {})
  /\ rows' = Append(rows, <<name, k>>) /\ UNCHANGED files
End == /\ Complete /\ \A j \in cur+1..Len(files) : Due(files[j]) = {}
       /\ UNCHANGED vars
NoneTwice == (\A i, j \in 1..Len(files) : files[i].name = files[j].name => i = j) => \A i, j \in 1..Len(rows) : rows[i] = rows[j] => i = j
InFileOrder == (\A i, j \in 1..Len(files) : files[i].name = files[j].name => i = j) =>
   \A i, j \in 1..Len(rows) : \A a, b \in 1..Len(files) : (i < j /\ files[a].name = rows[i][1] /\ files[b].name = rows[j][1]) => a <= b
NothingMissed == Complete /\ (\A j \in cur+1..Len(files) : Due(files[j]) = {}) =>
   \A a \in 1..Len(files) : \A k \in Due(files[a]) : \E i \in 1..Len(rows) : rows[i] = <<files[a].name, k>>
=============================================================================
