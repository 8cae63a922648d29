------------------------------ MODULE BatchTrace ------------------------------
EXTENDS Batch, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l, kind
tvars == <<vars, tid, l, kind>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ Traces[tid][1].ev = "Config" /\ InitWith(Traces[tid][1].plan, Traces[tid][1].w) /\ kind = Traces[tid][1].kind
SameFile(f, i) == /\ f.id = i /\ f.sols = File(i).sols /\ f.closed = File(i).closed
                  /\ (f.closed => f.fin = File(i).fin) /\ f.meta
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED <<tid, kind>>
  /\ \/ /\ E.ev = "Do" /\ Do(E.i)
        /\ E.input                      \* the solver was given this row's input, with the label and the overrides
        /\ kind = "files" => /\ Len(E.new) = 1 /\ SameFile(E.new[1], E.i) /\ E.unchanged
     \/ E.ev = "Take" /\ Take
     \* what is in the output while the next result is awaited: complete rows of everything taken
     \/ /\ E.ev = "Look" /\ UNCHANGED vars
        /\ kind = "csv" => E.head /\ E.rows = rows
        /\ kind = "files" => E.said = (taken \in reported)
     \/ /\ E.ev = "End" /\ Finish
        /\ kind = "csv" => E.head /\ E.rows = rows
        /\ kind = "files" => {E.ids[i] : i \in 1..Len(E.ids)} = 1..N /\ Len(E.ids) = N
     \* a real pool of processes: only the end is observed
     \/ /\ E.ev = "Whole" /\ ph = "run" /\ taken = 0
        /\ done' = 1..N /\ taken' = N /\ rows' = Successes /\ ph' = "done" /\ UNCHANGED <<plan, w, reported>>
        /\ kind = "csv" => E.head /\ E.rows = rows'
        /\ kind = "files" => \A i \in 1..N : SameFile(E.files[i], i)
        /\ kind = "files" => Len(E.files) = N
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
