------------------------------- MODULE Texts -------------------------------
(* Forms a set of inputs can take: the text a user writes, the solver's numbers, a config file, a
   row of a batch input file, a result file.  Converting from one form to another changes how
   things are written but never what they mean.

   The value of a setting is an index into a table of the values its kind can have (0: unset); a
   writing is one of the ways in which that value can be written down.  What a form holds is the
   values it denotes. *)
EXTENDS Fields

Reals == {"start", "stop", "taylor_stop_angle", "relative_tolerance", "absolute_tolerance", "v_rin_on_c_s",
          "v_a_on_c_s", "c_s_on_v_k", "eta_O", "eta_H", "eta_A", "gamma", "target_velocity"}
Ints == {"max_steps", "num_angles", "nwalkers", "iterations", "threads"}
Kind(f) == CASE f \in Reals -> "real" [] f \in Ints -> "int" [] f \in Flags -> "flag"
             [] f = "mcmc_vars" -> "vars" [] f = "interp_slice" -> "slice" [] f = "interp_range" -> "optint"
             [] f \in {"split_method", "label"} -> "word" [] OTHER -> "optreal"
CONSTANTS NReal, NInt, NSlice, NWord
Values(k) == CASE k = "real" -> 1..NReal [] k = "int" -> 1..NInt [] k = "flag" -> 1..2
               [] k = "vars" -> 0..7 [] k = "slice" -> 0..NSlice [] k = "optint" -> 0..NInt
               [] k = "word" -> 1..NWord [] k = "optreal" -> 0..NReal
Writings == 1..6

Empty == <<>>
VARIABLES text, solver, cfg, row, file, orig, label
vars == <<text, solver, cfg, row, file, orig, label>>
Init == /\ text = Empty /\ solver = Empty /\ cfg = Empty /\ row = Empty /\ file = Empty /\ orig = Empty
        /\ label = 1
\* the user's settings, as text; the label is a text of its own
Given(v, lb) == orig = Empty /\ orig' = v /\ text' = v /\ label' = lb /\ UNCHANGED <<solver, cfg, row, file>>
ToSolver_ == text # Empty /\ solver' = text /\ UNCHANGED <<text, cfg, row, file, orig, label>>
ToText == solver # Empty /\ text' = solver /\ UNCHANGED <<solver, cfg, row, file, orig, label>>
WriteCfg == text # Empty /\ cfg' = text /\ UNCHANGED <<text, solver, row, file, orig, label>>
ReadCfg == cfg # Empty /\ text' = cfg /\ UNCHANGED <<solver, cfg, row, file, orig, label>>
WriteRow == solver # Empty /\ row' = solver /\ UNCHANGED <<text, solver, cfg, file, orig, label>>
ReadRow == row # Empty /\ text' = row /\ UNCHANGED <<solver, cfg, row, file, orig, label>>
\* a run with this configuration, and a solution computed with this input
Record == text # Empty /\ solver # Empty /\ file' = solver /\ UNCHANGED <<text, solver, cfg, row, orig, label>>
LoadSolver == file # Empty /\ solver' = file /\ UNCHANGED <<text, cfg, row, file, orig, label>>
LoadText == file # Empty /\ text' = file /\ UNCHANGED <<solver, cfg, row, file, orig, label>>
DumpCfg == file # Empty /\ cfg' = file /\ UNCHANGED <<text, solver, row, file, orig, label>>
DumpRow == file # Empty /\ row' = file /\ UNCHANGED <<text, solver, cfg, file, orig, label>>

(* whatever was done, whatever form exists denotes what the user gave *)
Meaning == \A x \in {text, solver, cfg, row, file} : x = Empty \/ x = orig
LabelKept == [][orig # Empty => label' = label]_vars
=============================================================================
