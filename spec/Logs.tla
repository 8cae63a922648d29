--------------------------------- MODULE Logs ---------------------------------
(* Where log records go while commands run, one after another, in one process: each session asks for a level on standard
   error, and perhaps for a log file with its own level; a record reaches each place exactly when it is at or above the
   level asked for there, and everything is written by the time the command has ended. *)
EXTENDS Naturals, Sequences
\* levels: 1 debug, 2 info, 3 notice, 4 warning, 5 error, 6 critical
VARIABLES conf, err, file, n, ph
vars == <<conf, err, file, n, ph>>
Nothing == [how |-> "none", level |-> 0, file |-> FALSE, flevel |-> 0]
Init == conf = Nothing /\ err = <<>> /\ file = <<>> /\ n = 0 /\ ph = "out"
\* how: "default", "quiet", "verbose", "level"; flevel 0: the default for the file, which is everything
ErrLevel(c) == CASE c.how = "quiet" -> 5 [] c.how = "verbose" -> 1 [] c.how = "level" -> c.level [] OTHER -> 3
FileLevel(c) == IF c.flevel = 0 THEN 1 ELSE c.flevel
Begin(c) == ph = "out" /\ conf' = c /\ ph' = "in" /\ UNCHANGED <<err, file, n>>
Record(v) == /\ ph = "in" /\ n' = n + 1
             /\ err' = IF v >= ErrLevel(conf) THEN Append(err, n + 1) ELSE err
             /\ file' = IF conf.file /\ v >= FileLevel(conf) THEN Append(file, n + 1) ELSE file
             /\ UNCHANGED <<conf, ph>>
End == ph = "in" /\ ph' = "out" /\ conf' = Nothing /\ UNCHANGED <<err, file, n>>
Ordered(s) == \A i \in 1..Len(s)-1 : s[i] < s[i + 1]
InOrder == Ordered(err) /\ Ordered(file)
OnlyAsked == [][file' # file => conf.file]_vars
Grow == [][(SubSeq(err', 1, Len(err)) = err) /\ (SubSeq(file', 1, Len(file)) = file)]_vars
=============================================================================
