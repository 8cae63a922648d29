------------------------------ MODULE Settings ------------------------------
(* How settings reach a calculation: config file, command line and (when solving again) the stored
   solution; and what the new run says it was computed with.

   A config file or a list of overrides is a function from some of the settings to texts.  A run has
   the configuration it recorded, the solver input that was used and the inputs of the solutions it
   recorded, which a search may have changed ("drift").  Texts and values are tokens of Fields. *)
EXTENDS Fields

\* the documented default of each setting, as text
DefaultText(f) == CASE f = "gamma" -> 1                               \* 0.001
                    [] f = "mcmc_vars" -> 8                           \* v_r,v_a,v_k
                    [] f \in Optional \ {"mcmc_vars"} -> NOTEXT
                    [] f \in {"eta_derivs", "use_taylor_jump"} -> TRUEV
                    [] f = "use_E_r" -> FALSEV
                    [] OTHER -> DFLT
Texts(f) == ConfDom(f, 14) \ {0}
Numbers(f) == InpDom(f, 14)

Has(p, f) == f \in DOMAIN p
Effective(cfg, ov) == [f \in ConfFields |->
    IF Has(ov, f) THEN ov[f] ELSE IF Has(cfg, f) THEN cfg[f] ELSE DefaultText(f)]
Again(conf, ov) == [f \in ConfFields |-> IF Has(ov, f) THEN ov[f] ELSE conf[f]]
InputAgain(conf, ov, stored) == [f \in InpFields |->
    IF Has(ov, f) THEN ToSolver(Again(conf, ov))[f] ELSE stored[f]]
Drifted(used, drift) == [f \in InpFields |-> IF Has(drift, f) THEN drift[f] ELSE used[f]]

NoBase == <<>>
VARIABLES runs
vars == <<runs>>
Init == runs = <<>>

\* drifts: for each solution the search records, the settings it changed; fin: which of the
\* recorded solutions it makes final, 0: it does not choose (the last one becomes final)
NewRun(conf, used, base, drifts, fin) ==
  runs' = Append(runs, [conf |-> conf, used |-> used, base |-> base,
                        sols |-> [i \in 1..Len(drifts) |-> Drifted(used, drifts[i])],
                        final |-> IF fin = 0 THEN Len(drifts) ELSE fin])
Solve(cfg, ov, drifts, fin) ==
  LET c == Effective(cfg, ov) IN NewRun(c, ToSolver(c), NoBase, drifts, fin)
\* an override which names no setting: refused, nothing happens
Refuse == UNCHANGED vars
\* which solution a selector means; numbers count from 0
Sel(r, s) == CASE s = "final" -> r.final [] s = "latest" -> r.final [] OTHER -> CHOOSE i \in 1..Len(r.sols) : ToString(i - 1) = s
Selectors(r) == {"final", "latest"} \cup {ToString(i - 1) : i \in 1..Len(r.sols)}
Resolve(i, s, ov, drifts, fin) ==
  LET r == runs[i] IN
  NewRun(Again(r.conf, ov), InputAgain(r.conf, ov, r.sols[Sel(r, s)]), <<i, s>>, drifts, fin)

(* what the merging guarantees, for every setting *)
EveryText == \A i \in 1..Len(runs) : \A f \in ConfFields : runs[i].conf[f] # 0
Consistent == \A i \in 1..Len(runs) : runs[i].base = NoBase => runs[i].used = ToSolver(runs[i].conf)
\* a chain of re-solves without overrides keeps the input of the solution it started from
Faithful == \A i \in 1..Len(runs) : runs[i].base # NoBase =>
   LET b == runs[runs[i].base[1]] IN
     runs[i].conf = b.conf => \A f \in InpFields :
        runs[i].used[f] \in {b.sols[Sel(b, runs[i].base[2])][f], ToSolver(b.conf)[f]}
Untouched == [][ \A i \in 1..Len(runs) : runs'[i] = runs[i] ]_vars
=============================================================================
