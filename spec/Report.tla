-------------------------------- MODULE Report --------------------------------
(* What the information command shows and what the dumps write.  run holds what was stored: the run's own properties (run.own),
   its configuration (run.conf), and for each solution its input, initial conditions, status, its rank among the solutions by
   score, and its sonic point in scale heights (-1: none).  outs holds what is in each output file: a csv dump appends a row
   (after a header if asked for one), a config dump replaces all there is. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES run, outs
vars == <<run, outs>>
S == INSTANCE Select WITH runs <- <<[n |-> Len(run.sols), fin |-> run.final # <<>>]>>, got <- <<>>
InitWith(r, files) == run = r /\ outs = [x \in files |-> <<>>]
Chosen(sel) == S!Lookup(1, sel)
Fails(sel) == Chosen(sel) \in {S!Nothing, S!Fail}
Soln(sel) == IF Chosen(sel) = S!Final THEN run.final[1] ELSE run.sols[Chosen(sel) + 1]
Groups == {"run", "status", "input", "initial-conditions", "sonic-on-scale", "solutions"}
Ordered(names) == /\ Len(names) = Len(run.sols)
                  /\ {names[i] : i \in 1..Len(names)} = 0..Len(run.sols)-1
                  /\ \A i \in 1..Len(names)-1 : run.sols[names[i] + 1].rank < run.sols[names[i + 1] + 1].rank
Correct(group, sel, shown) ==
  CASE group = "run" -> shown = [own |-> run.own, conf |-> run.conf, count |-> Len(run.sols)]
    [] group = "solutions" -> Ordered(shown)
    [] group = "status" -> shown = Soln(sel).status
    [] group = "input" -> shown = Soln(sel).inp
    [] group = "initial-conditions" -> shown = Soln(sel).init
    [] group = "sonic-on-scale" -> shown = [label |-> run.own.label, at |-> Soln(sel).sonic]
Info(group, sel, shown) ==
  /\ Chosen(sel) # S!Fail
  /\ IF group \in {"run", "solutions"} THEN Correct(group, sel, shown) ELSE ~Fails(sel) /\ Correct(group, sel, shown)
  /\ UNCHANGED vars
Line(isheader, input) == [header |-> isheader, inp |-> input]
Header == Line(TRUE, <<>>)
Csv(file, sel, withheader) ==
  /\ ~Fails(sel)
  /\ outs' = [outs EXCEPT ![file] = @ \o (IF withheader THEN <<Header>> ELSE <<>>) \o <<Line(FALSE, Soln(sel).inp)>>]
  /\ UNCHANGED run
\* the run's label stays with the inputs
Cfg(file, sel) == ~Fails(sel) /\ outs' = [outs EXCEPT ![file] = <<[inp |-> Soln(sel).inp, label |-> run.own.label]>>] /\ UNCHANGED run
Failed(sel) == Fails(sel) /\ UNCHANGED vars

\* nothing written is lost by later csv dumps, and whatever is in a file is a stored input
Stored == {run.sols[k].inp : k \in 1..Len(run.sols)} \cup {run.final[k].inp : k \in 1..Len(run.final)}
OnlyStored == \A x \in DOMAIN outs : \A i \in 1..Len(outs[x]) : outs[x][i] = Header \/ outs[x][i].inp \in Stored
RunKept == [][run' = run]_vars
=============================================================================
