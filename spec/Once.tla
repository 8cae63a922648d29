-------------------------------- MODULE Once --------------------------------
(* The methods which make one attempt: a single solution, a hydrostatic disc, a modified hydrostatic disc.  The attempt is
   recorded with everything it gave, and is the final solution; one which cannot be made leaves nothing behind. *)
EXTENDS Naturals, Sequences
VARIABLES cfg,     \* [way, useE, file, keep, roots, sized, before, final]
          ph,      \* "asked", "ended", "refused", "over"
          rows, evals, flag, hit
vars == <<cfg, ph, rows, evals, flag, hit>>
BIG == 1000
Ways == {"single", "hydrostatic", "mod_hydro"}
Outcomes == {"success", "root", "tstop", "failed", "tooclose"}
\* what cannot be asked for: hydrostatic discs with E_r, a root function without its size
CannotBegin(c) == (c.way = "hydrostatic" /\ c.useE) \/ (c.roots /\ ~c.sized)
InitWith(c) == /\ cfg = c /\ rows = <<>> /\ evals = <<>> /\ flag = "none" /\ hit = FALSE
               /\ ph = IF CannotBegin(c) THEN "refused" ELSE "asked"
\* one integration, over the angles asked for (0..n), from the disc's own conditions (row 0): it reaches r of them and
\* evaluates the equations, which at a negative density (listed in bad) have no result
Integrate(want, start, r, m, bad, how) ==
  /\ ph = "asked" /\ cfg.way # "single" /\ start = 0 /\ want = [i \in 1..cfg.n |-> i - 1] /\ r \in 1..cfg.n
  /\ rows' = [i \in 1..r |-> IF i = 1 THEN 0 ELSE i]
  /\ evals' = SelectSeq([i \in 1..m |-> BIG + i], LAMBDA e : e - BIG \notin bad)
  /\ flag' = how /\ hit' = (how = "root")
  /\ ph' = IF how = "tooclose" THEN "refused" ELSE "ended"
  /\ UNCHANGED cfg
\* the parts of a single solution are another matter (Stages): here it is there, or not
Attempt(how) ==
  /\ ph = "asked" /\ cfg.way = "single"
  /\ ph' = (IF how = "tooclose" THEN "refused" ELSE "ended") /\ flag' = how /\ UNCHANGED <<cfg, rows, evals, hit>>
Other(i) == 100 + i        \* solutions which were there before
Name(i) == i - 1
\* sols: what the run holds now, by name; final: 0, or the number of the solution
Final(final) == final = IF cfg.final THEN 1 ELSE 0
Recorded(names, olds, final, success, sol) ==
  /\ ph = "ended" /\ ph' = "over" /\ UNCHANGED <<cfg, rows, evals, flag, hit>>
  /\ names = [i \in 1..cfg.before + 1 |-> Name(i)] /\ olds = [i \in 1..cfg.before |-> Other(i)]
  /\ Final(final) /\ success
  /\ sol.flag = flag /\ sol.input /\ sol.conditions /\ sol.kind
  /\ cfg.way # "single" =>
       /\ sol.rows = rows /\ sol.angles = [i \in 1..Len(rows) |-> i - 1] /\ sol.hit = hit
       /\ sol.keep = cfg.keep /\ sol.evals = IF cfg.keep THEN evals ELSE <<>>
Refused(names, olds, final) ==
  /\ ph = "refused" /\ ph' = "over" /\ UNCHANGED <<cfg, rows, evals, flag, hit>>
  /\ names = [i \in 1..cfg.before |-> Name(i)] /\ olds = [i \in 1..cfg.before |-> Other(i)] /\ final = 0
\* ---- what must be so
AsAsked == ph \in {"ended", "over"} /\ rows # <<>> => rows[1] = 0 /\ Len(rows) <= cfg.n
NothingRefusedIsKept == \A i \in 1..Len(evals) : evals[i] > BIG
Begun == flag # "none" => ~CannotBegin(cfg)
=============================================================================
