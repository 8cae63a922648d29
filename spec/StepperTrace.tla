--------------------------- MODULE StepperTrace ---------------------------
EXTENDS Stepper, Json, IOUtils
CONSTANT Focus    \* subset of {"walk", "result", "inputs"}
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
          seen      \* parameters the equations were actually solved with, per recorded solution
tvars == <<vars, tid, l, seen>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 2
             /\ maxAttempts = Traces[tid][1].attempts /\ maxSearch = Traces[tid][1].search
             /\ g = G0 /\ halved = 0 /\ ph = "search" /\ first = "-" /\ n = 0 /\ searched = 0
             /\ rec = <<>> /\ types = <<>> /\ fin = -1 /\ out = "running" /\ seen = <<>>

Used(e) == "walk" \in Focus => /\ e.g = g           \* the parameter the equations were solved with
                               /\ e.same            \* every other setting as configured
Ended(e) ==
  /\ ph = "done" /\ UNCHANGED vars
  /\ ("result" \in Focus =>
       /\ e.raised = (out = "error")
       /\ (out # "error" => e.ok = Succeeded /\ e.fin = fin)
       /\ e.sols = [i \in 1..Len(rec) |-> i])       \* which attempts' solutions are recorded
  /\ ("inputs" \in Focus => e.inputs = seen /\ e.samein)
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ E.ev = "Attempt" /\ Used(E) /\ IF E.t = "fail" THEN Fail /\ UNCHANGED seen
                                        ELSE Attempt(E.t) /\ seen' = Append(seen, E.g)
     \/ E.ev = "End" /\ Ended(E) /\ UNCHANGED seen
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
