------------------------------ MODULE CsvFile ------------------------------
(* Batch input files: what can stand in one, who writes it, and the inputs read from it.

   A file is a sequence of lines: comments, blank lines, headers (a sequence of column names) and
   rows (a sequence of values).  Columns are the settings, where a row came from ("filename",
   "solution_name"), a label, or something else.  A value is a token (0: unset). *)
EXTENDS Fields

\* the settings in the order in which the program writes them
Standard == <<"start", "stop", "taylor_stop_angle", "max_steps", "num_angles", "relative_tolerance",
  "absolute_tolerance", "gamma", "nwalkers", "iterations", "threads", "target_velocity", "split_method",
  "v_rin_on_c_s", "v_a_on_c_s", "c_s_on_v_k", "eta_O", "eta_H", "eta_A", "eta_derivs", "jump_before_sonic",
  "use_taylor_jump", "mcmc_vars", "v_t_sonic_crit", "after_sonic", "sonic_interp_size", "interp_range",
  "interp_slice", "use_E_r">>
Provenance == {"filename", "solution_name"}
Junk == {"max_slow_mach", "Sigma", "note", "v_t_ends_low"}
Known == ConfFields \cup Provenance

Range(s) == {s[i] : i \in 1..Len(s)}
LineKinds == {"comment", "blank", "header", "row"}
Comment(i) == [k |-> "comment", i |-> i]
Blank == [k |-> "blank"]
Header(cols) == [k |-> "header", cols |-> cols]
Row(vals) == [k |-> "row", vals |-> vals]

VARIABLES lines, got, reads
vars == <<lines, got, reads>>
Init == lines = <<>> /\ got = <<>> /\ reads = 0

Content(s) == SelectSeq(s, LAMBDA x : x.k \notin {"comment", "blank"})
Rows(s) == SelectSeq(s, LAMBDA x : x.k = "row")
HasHeader(s) == LET c == Content(s) IN Len(c) > 0 /\ c[1].k = "header"
Columns(s) == IF HasHeader(s) THEN Content(s)[1].cols ELSE Standard
Min(a, b) == IF a < b THEN a ELSE b
\* a row gives values to the columns it reaches; columns which mean nothing here are left out, and
\* so is a label, as all inputs get the one asked for
InputOf(cols, vals) ==
  LET at == {i \in 1..Min(Len(cols), Len(vals)) : cols[i] \in (Known \ {"label"})} IN
  [f \in {cols[i] : i \in at} |-> vals[CHOOSE i \in at : cols[i] = f]]
Inputs(s) == LET r == Rows(s) IN [i \in 1..Len(r) |-> InputOf(Columns(s), r[i].vals)]

(* what a file may be extended with *)
\* (what a row with nothing but a label stands for is left open: there are no such rows)
Says(vals) == DOMAIN InputOf(Columns(lines), vals) # {}
Line(x) == (x.k = "row" => Says(x.vals)) /\ lines' = Append(lines, x) /\ UNCHANGED <<got, reads>>
\* a header is the first thing in a file which is not a comment, or repeats the leading columns
\* of (or extends) the one there, as when several commands append to one file
CanHeader(cols) ==
  \/ Content(lines) = <<>>
  \/ LET c == Columns(lines) IN \A i \in 1..Min(Len(cols), Len(c)) : cols[i] = c[i]
AddHeader(cols) == CanHeader(cols) /\ Line(Header(cols))
\* commands append comments (the batch runner), a header or none, and rows
CanProduce(cols, hdr) == IF hdr THEN CanHeader(cols) ELSE cols = Standard /\ CanHeader(cols)
Produce(cols, hdr, rows, ncom) ==
  /\ CanProduce(cols, hdr)
  /\ lines' = lines \o [i \in 1..ncom |-> Comment(i)] \o (IF hdr THEN <<Header(cols)>> ELSE <<>>)
                    \o [i \in 1..Len(rows) |-> Row(rows[i])]
  /\ UNCHANGED <<got, reads>>
Read == got' = Inputs(lines) /\ reads' = reads + 1 /\ UNCHANGED lines

OneEach == reads > 0 => Len(got) <= Len(Rows(lines))
Ordered == (reads > 0 /\ Len(got) > 0) =>
   \A i \in 1..Len(got) : got[i] = InputOf(Columns(lines), Rows(lines)[i].vals)
\* comments and blank lines make no difference, wherever they are
Indifferent == Inputs(lines) = Inputs(Content(lines))
=============================================================================
