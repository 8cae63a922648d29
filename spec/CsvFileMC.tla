----------------------------- MODULE CsvFileMC -----------------------------
EXTENDS CsvFile, Json, CSV, IOUtils
CONSTANTS Mode, MaxOps
VARIABLE hist
mcvars == <<vars, hist>>
Pick(S) == RandomElement(S)
L == Len(hist)
H(op, r) == hist' = Append(hist, r @@ [op |-> op])
MCInit == Init /\ hist = <<>>
Dom(c) == IF c \in InpFields THEN InpDom(c, 14) ELSE {1, 2}
StatsCols == Standard \o <<"max_slow_mach", "Sigma", "filename", "solution_name", "v_t_ends_low">>

(* every arrangement of a few kinds of lines: two columns, in either order or none named, two different rows *)
SmallHeaders == {<<"stop", "note", "eta_O">>, <<"eta_O", "stop">>, <<"label", "stop">>}
SmallRows == {<<1, 2, 1>>, <<2>>, <<DFLT, 1, 1, 1>>}
Small ==
  L < MaxOps /\
  \/ Line(Comment(L)) /\ H("line", [x |-> Comment(L)])
  \/ Line(Blank) /\ H("line", [x |-> Blank])
  \/ \E c \in SmallHeaders : AddHeader(c) /\ H("line", [x |-> Header(c)])
  \/ \E r \in SmallRows : Line(Row(r)) /\ H("line", [x |-> Row(r)])

(* everything: any columns, any values, the program's own commands in between *)
Perm(S) == LET RECURSIVE P(_)
               P(T) == IF T = {} THEN <<>> ELSE CHOOSE s \in {<<x>> \o P(T \ {x}) : x \in {Pick(T)}} : TRUE
           IN P(S)
SomeCols == {Perm({x \in Known \cup Junk : Pick(1..d) = 1} \cup {Pick(InpFields)} \cup (IF Pick(1..3) = 1 THEN {"label"} ELSE {})) : d \in {Pick({1, 2, 8})}}
Vals(cols) == {[i \in 1..n |-> Pick(Dom(cols[i]))] : n \in {IF Pick(1..4) = 1 THEN Pick(1..Len(cols)) ELSE Len(cols)}}
RowsOf(cols, n) == {[i \in 1..m |-> [j \in 1..Len(cols) |-> Pick(Dom(cols[j]))]] : m \in {n}}
Wide ==
  L < MaxOps /\
  \/ Pick(1..2) = 1 /\ ((Line(Comment(L)) /\ H("line", [x |-> Comment(L)]))
                        \/ (Line(Blank) /\ H("line", [x |-> Blank])))
  \/ \E c \in SomeCols : Content(lines) = <<>> /\ AddHeader(c) /\ H("line", [x |-> Header(c)])
  \/ \E n \in {Pick(1..4)} : \E r \in Vals(Columns(lines)) : Line(Row(r)) /\ H("line", [x |-> Row(r)])
  \/ \E n \in {Pick(0..2)}, who \in {Pick({"csvrunner", "inputs", "stats", "dump", "dump"})} :
       \E hdr \in (IF who = "dump" THEN {Pick(BOOLEAN)} ELSE {TRUE}), cols \in {IF who = "stats" THEN StatsCols ELSE Standard} :
       \E rows \in RowsOf(cols, IF who = "dump" THEN 1 ELSE n) :
         Produce(cols, hdr, rows, IF who = "csvrunner" THEN 3 ELSE 0)
         /\ H("produce", [who |-> who, cols |-> cols, hdr |-> hdr, rows |-> rows])
  \/ L > 0 /\ Pick(1..4) = 1 /\ Read /\ H("read", [z |-> 0])
MCNext == IF Mode = "small" THEN Small ELSE Wide
MCSpec == MCInit /\ [][MCNext]_mcvars
\* (the reader is asked at the end of every behaviour in any case)
Emit == (L > 0 /\ (Mode = "small" \/ L = MaxOps)) => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.OUT)
=============================================================================
