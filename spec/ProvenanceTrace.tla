-------------------------- MODULE ProvenanceTrace --------------------------
EXTENDS Provenance, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, l,
          ics      \* initial conditions each solution was solved with
tvars == <<vars, tid, l, ics>>
E == Traces[tid][l]
More == l <= Len(Traces[tid])
TraceInit == Init /\ tid \in 1..Len(Traces) /\ l = 1 /\ ics = <<>>
TraceNext ==
  /\ More /\ l' = l + 1 /\ UNCHANGED tid
  /\ \/ /\ E.ev = "Solve"      \* choose and solve; the conditions used must be those derived from the input
        /\ E.ic = E.derived
        /\ work' = E.inp /\ solved' = Append(solved, E.inp) /\ ics' = Append(ics, E.ic) /\ UNCHANGED recs
     \/ /\ E.ev = "Record" /\ Record(E.of)
        /\ E.inp = solved[E.of] /\ E.ic = ics[E.of]
        /\ UNCHANGED ics
     \/ /\ E.ev = "Rerun"      \* solving a recorded input again gives the recorded arrays
        /\ \E j \in 1..Len(recs) : recs[j].of = E.of
        /\ E.again = E.arrays
        /\ UNCHANGED <<vars, ics>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
NotStuck == More => ENABLED TraceNext
=============================================================================
