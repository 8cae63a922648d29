------------------------------- MODULE ReportMC -------------------------------
EXTENDS Report, Json, CSV, IOUtils, TLC
CONSTANTS Ns, MaxOps, Sample
VARIABLES hist
mcvars == <<vars, hist>>
Sels == {[kind |-> "none", k |-> 0], [kind |-> "final", k |-> 0], [kind |-> "latest", k |-> 0]}
          \cup {[kind |-> "number", k |-> k] : k \in {-1, 0, 1, 2, 10}}
Files == {"csv1", "csv2", "cfg1"}
Sol(k) == [inp |-> [t |-> k], init |-> k, status |-> k, rank |-> k, sonic |-> -1]
Run(n, fin) == [own |-> [label |-> 1], conf |-> 0, sols |-> [i \in 1..n |-> Sol(i)], final |-> IF fin THEN <<Sol(50)>> ELSE <<>>]
MCInit == hist = <<>> /\ \E n \in Ns, fin \in BOOLEAN : InitWith(Run(n, fin), Files)
Step(h) == hist' = Append(hist, h)
Opt(T) == IF Sample THEN {RandomElement(T)} ELSE T
Ops == [ev : {"Info"}, group : Groups, sel : Sels] \cup [ev : {"Csv"}, file : {"csv1", "csv2"}, sel : Sels, header : BOOLEAN]
       \cup [ev : {"Cfg"}, file : {"cfg1"}, sel : Sels]
MCNext == /\ Len(hist) < MaxOps
          /\ \E o \in Opt(Ops) :
              /\ Step(o)
              /\ \/ o.ev = "Csv" /\ Csv(o.file, o.sel, o.header)
                 \/ o.ev = "Cfg" /\ Cfg(o.file, o.sel)
                 \/ o.ev = "Info" /\ Chosen(o.sel) # S!Fail /\ UNCHANGED vars
                 \/ Failed(o.sel)
MCSpec == MCInit /\ [][MCNext]_mcvars
Emit == Len(hist) = MaxOps => CSVWrite("%1$s", <<ToJson([n |-> Len(run.sols), fin |-> run.final # <<>>, ops |-> hist])>>, IOEnv.OUT)
HeadersAsAsked == \A x \in {"csv1", "csv2"} :
   Cardinality({i \in 1..Len(outs[x]) : outs[x][i] = Header}) =
   Cardinality({i \in 1..Len(hist) : hist[i].ev = "Csv" /\ hist[i].file = x /\ hist[i].header /\ ~Fails(hist[i].sel)})
=============================================================================
