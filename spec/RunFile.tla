------------------------------ MODULE RunFile ------------------------------
(* Life cycle of runs and their result files in one directory.              *)
(* A run is started under a name (refused if the name is taken), records    *)
(* solutions one by one, may choose a final solution (or explicitly none)   *)
(* at most once, and then finishes or is aborted by an exception.  The      *)
(* result file mirrors the run at every step, so that an abort at any point *)
(* leaves a file with exactly what was recorded before it.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Names,      \* names a run may be given
          MaxSols     \* bound on recorded solutions per run (model checking)

VARIABLES dir,        \* [subset of Names -> file]: the directory
          run         \* the run in progress

vars == <<dir, run>>

Unset == -1           \* no final solution chosen yet
None  == 0            \* final solution explicitly none; tokens are >= 1
Foreign == [kind |-> "foreign", sols |-> <<>>, fin |-> Unset, cfg |-> 0, by |-> 0]

File(r) == [kind |-> "result", sols |-> r.sols, fin |-> r.fin, cfg |-> r.cfg, by |-> r.id]
Idle(n) == [ph |-> "idle", backed |-> FALSE, name |-> "-", sols |-> <<>>, fin |-> Unset,
            cfg |-> 0, id |-> n]

Put(n, f) == [x \in DOMAIN dir \cup {n} |-> IF x = n THEN f ELSE dir[x]]
Sync(r) == IF r.backed THEN dir' = Put(r.name, File(r)) ELSE UNCHANGED dir

Init == /\ run = Idle(0)
        /\ \E S \in SUBSET Names : dir = [n \in S |-> Foreign]

Idling == run.ph = "idle"
Live   == run.ph = "live"

(* exclusive creation: one atomic step *)
Start(n, c) == /\ Idling /\ n \notin DOMAIN dir
               /\ run' = [Idle(run.id + 1) EXCEPT !.ph = "live", !.backed = TRUE, !.name = n, !.cfg = c]
               /\ Sync(run')
StartMem(c) == /\ Idling
               /\ run' = [Idle(run.id + 1) EXCEPT !.ph = "live", !.cfg = c]
               /\ UNCHANGED dir
Refuse(n)   == /\ Idling /\ n \in DOMAIN dir
               /\ run' = Idle(run.id + 1)
               /\ UNCHANGED dir
(* somebody else creates a file, possibly between our last look and our creation *)
Plant(n)    == /\ Idling /\ n \notin DOMAIN dir
               /\ dir' = Put(n, Foreign) /\ UNCHANGED run

Add(t)      == /\ Live /\ t >= 1
               /\ run' = [run EXCEPT !.sols = Append(@, t)] /\ Sync(run')
AddAgain    == /\ Live /\ run.sols # <<>>
               /\ run' = [run EXCEPT !.sols = Append(@, @[Len(@)])] /\ Sync(run')
Choose(i)   == /\ Live /\ run.fin = Unset /\ i \in 1..Len(run.sols)
               /\ run' = [run EXCEPT !.fin = run.sols[i]] /\ Sync(run')
ChooseNone  == /\ Live /\ run.fin = Unset
               /\ run' = [run EXCEPT !.fin = None] /\ Sync(run')
ChooseRefused == /\ Live /\ run.fin # Unset /\ UNCHANGED vars

Ended(r) == IF r.fin # Unset THEN r ELSE [r EXCEPT !.fin = r.sols[Len(r.sols)]]
Finish   == /\ Live /\ (run.fin # Unset \/ run.sols # <<>>)
            /\ LET r == Ended(run) IN
                 /\ run' = [r EXCEPT !.ph = "idle"]
                 /\ IF r.backed THEN dir' = Put(r.name, File(r)) ELSE UNCHANGED dir
Abort    == /\ Live /\ run' = [run EXCEPT !.ph = "idle"] /\ UNCHANGED dir

Step(e) == \/ e.ev = "Start"    /\ Start(e.name, e.cfg)
           \/ e.ev = "StartMem" /\ StartMem(e.cfg)
           \/ e.ev = "Refuse"   /\ Refuse(e.name)
           \/ e.ev = "Plant"    /\ Plant(e.name)
           \/ e.ev = "Add"      /\ Add(e.tok)
           \/ e.ev = "AddAgain" /\ AddAgain
           \/ e.ev = "Choose"   /\ Choose(e.i)
           \/ e.ev = "ChooseNone"    /\ ChooseNone
           \/ e.ev = "ChooseRefused" /\ ChooseRefused
           \/ e.ev = "Finish"   /\ Finish
           \/ e.ev = "Abort"    /\ Abort

(* the events possible in the current state; tokens are numbered globally *)
NextTok == run.id * 100 + Len(run.sols) + 1
Events ==
  IF Idling
  THEN {[ev |-> "Start", name |-> n, cfg |-> run.id + 1] : n \in Names \ DOMAIN dir}
       \cup {[ev |-> "Refuse", name |-> n] : n \in Names \cap DOMAIN dir}
       \cup {[ev |-> "StartMem", cfg |-> run.id + 1]}
       \cup {[ev |-> "Plant", name |-> n] : n \in Names \ DOMAIN dir}
  ELSE (IF Len(run.sols) < MaxSols
        THEN {[ev |-> "Add", tok |-> NextTok]} \cup (IF run.sols # <<>> THEN {[ev |-> "AddAgain"]} ELSE {})
        ELSE {})
       \cup (IF run.fin = Unset
             THEN {[ev |-> "ChooseNone"]} \cup {[ev |-> "Choose", i |-> i] : i \in 1..Len(run.sols)}
             ELSE {[ev |-> "ChooseRefused"]})
       \cup {[ev |-> "Abort"]}
       \cup (IF run.fin # Unset \/ run.sols # <<>> THEN {[ev |-> "Finish"]} ELSE {})

Next == \E e \in Events : Step(e)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)
IsPrefix(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : s[i] = t[i]
Range(s) == {s[i] : i \in 1..Len(s)}

FileMirrorsRun == Live /\ run.backed => dir[run.name] = File(run)
FinalIsRecorded == \A n \in DOMAIN dir : dir[n].fin > 0 => dir[n].fin \in Range(dir[n].sols)

(* nothing recorded is ever dropped, altered or overwritten; only the run in progress changes a file *)
NeverOverwritten ==
  [][\A n \in DOMAIN dir :
       /\ n \in DOMAIN dir'
       /\ dir'[n].kind = dir[n].kind /\ dir'[n].by = dir[n].by /\ dir'[n].cfg = dir[n].cfg
       /\ IsPrefix(dir[n].sols, dir'[n].sols)
       /\ (dir[n].fin # Unset => dir'[n].fin = dir[n].fin)
       /\ (dir'[n] # dir[n] => Live /\ run.backed /\ run.name = n)]_vars
FinalOnce == [][Live /\ run.fin # Unset /\ run'.id = run.id => run'.fin = run.fin]_vars
FinishedHasFinal == [][Live /\ run'.ph = "idle" /\ run'.fin = Unset => dir' = dir]_vars
DefaultIsLast ==
  [][Live /\ run'.ph = "idle" /\ run.fin = Unset /\ run'.fin # Unset
       => run'.fin = run.sols[Len(run.sols)]]_vars
=============================================================================
