---------------------------- MODULE RunFileTrace ----------------------------
(* Validates recorded histories of the real code against RunFile. *)
EXTENDS RunFile, Json, IOUtils
CONSTANT Focus   \* which observations this check judges: subset of {"names", "sols", "final"}
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l
tvars == <<vars, tid, l>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])

ToSet(s) == {s[i] : i \in 1..Len(s)}
DirOf(o) == [n \in {x.name : x \in ToSet(o)} |-> CHOOSE x \in ToSet(o) : x.name = n]

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ run = Idle(0)
             /\ dir = [n \in ToSet(Traces[tid][1].names) |-> Foreign]

(* what the run shows in memory after the step *)
MemOK(o) ==
  /\ "sols" \in Focus => /\ o.sols = run'.sols
                         /\ o.keys = [i \in 1..Len(run'.sols) |-> i - 1]
                         /\ o.len = Len(run'.sols)
  /\ "final" \in Focus => o.fin = run'.fin
(* what the directory shows after the step *)
DirOK(o) ==
  LET d == DirOf(o) IN
  /\ "names" \in Focus => /\ DOMAIN d = DOMAIN dir'
                          /\ \A n \in DOMAIN d : d[n].kind = dir'[n].kind /\ d[n].intact
  /\ \A n \in DOMAIN d \cap DOMAIN dir' :
       dir'[n].kind = "result" =>
         /\ "sols" \in Focus => /\ d[n].sols = dir'[n].sols /\ d[n].cfg = dir'[n].cfg
                                /\ d[n].keys = [i \in 1..Len(dir'[n].sols) |-> i - 1]
         /\ "final" \in Focus => d[n].fin = dir'[n].fin

Obs(e) == /\ "mem" \in DOMAIN e => MemOK(e.mem)
          /\ "live" \in DOMAIN e => ("sols" \in Focus =>     \* the file while the run is still going
                 /\ e.live.sols = dir'[run'.name].sols
                 /\ e.live.keys = [i \in 1..Len(e.live.sols) |-> i - 1])
          /\ "memfin" \in DOMAIN e => ("final" \in Focus => e.memfin = run'.fin)
          /\ "dir" \in DOMAIN e => DirOK(e.dir)

TraceNext == /\ More /\ l' = l + 1 /\ UNCHANGED tid
             /\ Step(E) /\ Obs(E)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
